// @generated by gen/gen_ops.py
use crate::spec::*;
use Role::*;
use Elem::*;
pub const N_OPS: usize = 597;
pub static OPS: [Op; 597] = [
  Op { name: "ab30_to_rgb8", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ar30_to_rgb8", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ar30_to_rgba8", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ayuv_to_rgb", fam: "ayuv", flags: MATRIX | RANGE | FLAG, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ayuv_to_rgba", fam: "ayuv", flags: MATRIX | RANGE | FLAG, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ba30_to_rgb8", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_bgra", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_gbr", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_rgb", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_rgba", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_sharp_yuv420", fam: "sharp", flags: MATRIX | RANGE | GAMMA, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_sharp_yuv422", fam: "sharp", flags: MATRIX | RANGE | GAMMA, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_ycgco420", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_ycgco422", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_ycgco444", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_yuv400", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_yuv420", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_yuv422", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_yuv444", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_yuv_nv12", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_yuv_nv16", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_yuv_nv21", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_yuv_nv24", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_yuv_nv42", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgr_to_yuv_nv61", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_bgr", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_gbr", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_rgb", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_rgba", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_sharp_yuv420", fam: "sharp", flags: MATRIX | RANGE | GAMMA, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_sharp_yuv422", fam: "sharp", flags: MATRIX | RANGE | GAMMA, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_ycgco420", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_ycgco422", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_ycgco444", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_yuv400", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_yuv420", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_yuv422", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_yuv444", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_yuv_nv12", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_yuv_nv16", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_yuv_nv21", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_yuv_nv24", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_yuv_nv42", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "bgra_to_yuv_nv61", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "convert_plane16_to_f16", fam: "f16conv", flags: DEPTH, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, F16, 1, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "convert_plane_f16_to_planar", fam: "f16conv", flags: 0, planes: &[pl(Src, F16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "convert_plane_f16_to_planar16", fam: "f16conv", flags: DEPTH, planes: &[pl(Src, F16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "convert_plane_to_f16", fam: "f16conv", flags: 0, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, F16, 1, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "convert_rgb16_to_f16", fam: "f16conv", flags: DEPTH, planes: &[pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "convert_rgb_f16_to_rgb", fam: "f16conv", flags: 0, planes: &[pl(Src, F16, 3, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "convert_rgb_f16_to_rgb16", fam: "f16conv", flags: DEPTH, planes: &[pl(Src, F16, 3, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "convert_rgb_to_f16", fam: "f16conv", flags: 0, planes: &[pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "convert_rgba16_to_f16", fam: "f16conv", flags: DEPTH, planes: &[pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "convert_rgba_f16_to_rgba", fam: "f16conv", flags: 0, planes: &[pl(Src, F16, 4, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "convert_rgba_f16_to_rgba16", fam: "f16conv", flags: DEPTH, planes: &[pl(Src, F16, 4, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "convert_rgba_to_f16", fam: "f16conv", flags: 0, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb10_alpha_to_rgba10", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "gb10_alpha_to_rgba_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb10_to_rgb10", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "gb10_to_rgb_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb10_to_rgba10", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "gb10_to_rgba_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb12_alpha_to_rgba12", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "gb12_alpha_to_rgba_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb12_to_rgb12", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "gb12_to_rgb_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb12_to_rgba12", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "gb12_to_rgba_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb14_alpha_to_rgba14", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "gb14_alpha_to_rgba_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb14_to_rgb14", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "gb14_to_rgb_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb14_to_rgba14", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "gb14_to_rgba_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb16_alpha_to_rgba16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb16_alpha_to_rgba_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb16_to_rgb16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb16_to_rgb_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb16_to_rgba16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gb16_to_rgba_f16", fam: "gbr", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "gbr_to_bgr", fam: "gbr", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "gbr_to_bgra", fam: "gbr", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "gbr_to_rgb", fam: "gbr", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "gbr_to_rgba", fam: "gbr", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "gbr_with_alpha_to_bgra", fam: "gbr", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "gbr_with_alpha_to_rgba", fam: "gbr", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_alpha_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i010_alpha_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i010_be_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_be_alpha_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i010_be_to_bgr", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_be_to_bgra", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_be_to_rgb", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_be_to_rgb10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i010_be_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_be_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i010_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_to_bgr", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_to_bgra", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_to_rgb", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_to_rgb10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i010_to_rgb_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i010_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i010_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i010_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i012_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_alpha_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i012_alpha_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i012_be_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_be_alpha_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i012_be_to_bgr", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_be_to_bgra", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_be_to_rgb", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_be_to_rgb12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i012_be_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_be_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i012_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_to_bgr", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_to_bgra", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_to_rgb", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_to_rgb12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i012_to_rgb_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i012_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i012_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i012_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i014_alpha_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i014_alpha_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i014_be_alpha_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i014_be_to_rgb14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i014_be_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i014_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i014_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i014_to_rgb14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i014_to_rgb_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i014_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i014_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i016_be_to_rgb16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 16, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 16, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i016_be_to_rgba16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 16, 0, 1), pl(Src, U16, 1, 1, 1, 0, 0, 16, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i016_to_rgb16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i016_to_rgba16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i210_alpha_be_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_alpha_be_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i210_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_alpha_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i210_alpha_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i210_be_to_bgr", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_be_to_bgra", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_be_to_rgb", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_be_to_rgb10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i210_be_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_be_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i210_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_to_bgr", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_to_bgra", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_to_rgb", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_to_rgb10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i210_to_rgb_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i210_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i210_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i210_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i212_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_alpha_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i212_alpha_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i212_be_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_be_alpha_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i212_be_to_bgr", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_be_to_bgra", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_be_to_rgb", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_be_to_rgb12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i212_be_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_be_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i212_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_to_bgr", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_to_bgra", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_to_rgb", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_to_rgb12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i212_to_rgb_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i212_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i212_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i212_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i214_alpha_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i214_alpha_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i214_be_alpha_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i214_be_to_rgb14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i214_be_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i214_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i214_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i214_to_rgb14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i214_to_rgb_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i214_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i214_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i216_be_to_rgb16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 16, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i216_be_to_rgba16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 16, 0, 1), pl(Src, U16, 1, 1, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i216_to_rgb16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i216_to_rgba16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i410_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i410_alpha_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i410_alpha_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i410_be_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i410_be_alpha_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i410_be_to_rgb10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i410_be_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i410_be_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i410_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i410_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i410_to_rgb10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i410_to_rgb_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i410_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i410_to_rgba10", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "i410_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i412_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i412_alpha_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i412_alpha_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i412_be_alpha_to_rgba", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i412_be_alpha_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i412_be_to_rgb12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i412_be_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i412_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i412_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i412_to_rgb12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i412_to_rgb_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i412_to_rgba12", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "i412_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i414_alpha_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i414_alpha_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i414_be_alpha_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i414_be_to_rgb14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i414_be_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i414_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i414_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "i414_to_rgb14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i414_to_rgb_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, F16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i414_to_rgba14", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "i414_to_rgba_f16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, F16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i416_be_to_rgb16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i416_be_to_rgba16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i416_to_rgb16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "i416_to_rgba16", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "icgc010_alpha_to_rgba10", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "icgc010_to_rgb10", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "icgc010_to_rgba10", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "icgc012_alpha_to_rgba12", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "icgc012_to_rgb12", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "icgc012_to_rgba12", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "icgc210_alpha_to_rgba10", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "icgc210_to_rgb10", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "icgc210_to_rgba10", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "icgc212_alpha_to_rgba12", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "icgc212_to_rgb12", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "icgc212_to_rgba12", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "icgc410_alpha_to_rgba10", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "icgc410_to_rgb10", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "icgc410_to_rgba10", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "icgc412_alpha_to_rgba12", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "icgc412_to_rgb12", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "icgc412_to_rgba12", fam: "icgc", flags: RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "mirror_cbcr", fam: "mirror", flags: MIRROR, planes: &[pl(Src, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "mirror_cbcr16", fam: "mirror", flags: MIRROR, planes: &[pl(Src, U16, 2, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 2, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "mirror_plane", fam: "mirror", flags: MIRROR, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "mirror_plane16", fam: "mirror", flags: MIRROR, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "mirror_rgb", fam: "mirror", flags: MIRROR, planes: &[pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "mirror_rgb16", fam: "mirror", flags: MIRROR, planes: &[pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "mirror_rgba", fam: "mirror", flags: MIRROR, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "mirror_rgba16", fam: "mirror", flags: MIRROR, planes: &[pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "p010_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 10, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p010_to_bgr", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 10, 1, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p010_to_bgra", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 10, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p010_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 10, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p010_to_rgb", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 10, 1, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p010_to_rgb10", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 10, 1, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "p010_to_rgba", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 10, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p010_to_rgba10", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 10, 1, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "p012_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 12, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p012_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 12, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p012_to_rgb12", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 12, 1, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "p012_to_rgba12", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 2, 1, 1, 0, 0, 12, 1, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "p210_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 10, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p210_to_bgr", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 10, 1, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p210_to_bgra", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 10, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p210_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 10, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p210_to_rgb", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 10, 1, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p210_to_rgb10", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 10, 1, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "p210_to_rgba", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 10, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p210_to_rgba10", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 10, 1, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "p212_to_ar30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 12, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p212_to_ra30", fam: "planar_ar30", flags: MATRIX | RANGE | ORDER, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 12, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p212_to_rgb12", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 12, 1, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "p212_to_rgba12", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 2, 1, 0, 0, 0, 12, 1, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "p410_to_bgr", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p410_to_bgra", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p410_to_rgb", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p410_to_rgb10", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "p410_to_rgba", fam: "pxxx", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "p410_to_rgba10", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 2, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "p412_to_rgb12", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 2, 0, 0, 0, 0, 12, 1, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "p412_to_rgba12", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 2, 0, 0, 0, 0, 12, 1, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "ra30_to_rgb8", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ra30_to_rgba8", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_abgr_to_yuv444", fam: "rdp", flags: 0, planes: &[pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_argb_to_yuv444", fam: "rdp", flags: 0, planes: &[pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_bgr_to_yuv444", fam: "rdp", flags: 0, planes: &[pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_bgra_to_yuv444", fam: "rdp", flags: 0, planes: &[pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_rgb_to_yuv444", fam: "rdp", flags: 0, planes: &[pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_rgba_to_yuv444", fam: "rdp", flags: 0, planes: &[pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_yuv444_to_abgr", fam: "rdp", flags: 0, planes: &[pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_yuv444_to_argb", fam: "rdp", flags: 0, planes: &[pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_yuv444_to_bgr", fam: "rdp", flags: 0, planes: &[pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_yuv444_to_bgra", fam: "rdp", flags: 0, planes: &[pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_yuv444_to_rgb", fam: "rdp", flags: 0, planes: &[pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rdp_yuv444_to_rgba", fam: "rdp", flags: 0, planes: &[pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, I16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb10_to_ar30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_gb10", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_i010", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_i010_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_i210", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_i210_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_i410", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_i410_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_p010", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U16, 2, 1, 1, 0, 0, 10, 1, 0), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_p210", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U16, 2, 1, 0, 0, 0, 10, 1, 0), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_p410", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U16, 2, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb10_to_ra30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgb12_to_ar30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_gb12", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_i012", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_i012_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_i212", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_i212_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_i412", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_i412_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_p012", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Dst, U16, 2, 1, 1, 0, 0, 12, 1, 0), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_p212", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Dst, U16, 2, 1, 0, 0, 0, 12, 1, 0), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_p412", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Dst, U16, 2, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb12_to_ra30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgb14_to_gb14", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgb14_to_i014", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgb14_to_i014_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 14, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgb14_to_i214", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgb14_to_i214_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 14, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgb14_to_i414", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgb14_to_i414_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgb16_to_gb16", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgb16_to_i016", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgb16_to_i016_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgb16_to_i216", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgb16_to_i216_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgb16_to_i416", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgb16_to_i416_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgb16_to_p016", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 1, 0), pl(Dst, U16, 2, 1, 1, 0, 0, 16, 1, 0), pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgb16_to_p216", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 1, 0), pl(Dst, U16, 2, 1, 0, 0, 0, 16, 1, 0), pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgb8_to_ar30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb8_to_ra30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_bgr", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_bgra", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_gbr", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_rgba", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_sharp_yuv420", fam: "sharp", flags: MATRIX | RANGE | GAMMA, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_sharp_yuv422", fam: "sharp", flags: MATRIX | RANGE | GAMMA, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_ycgco420", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_ycgco422", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_ycgco444", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_yuv400", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_yuv420", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_yuv422", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_yuv444", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_yuv_nv12", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_yuv_nv16", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_yuv_nv21", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_yuv_nv24", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_yuv_nv42", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgb_to_yuv_nv61", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba10_to_ar30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_gb10", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_i010", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 10, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_i010_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 10, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_i210", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 10, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_i210_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 10, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_i410", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_i410_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 10, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_p010", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U16, 2, 1, 1, 0, 0, 10, 1, 0), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_p210", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U16, 2, 1, 0, 0, 0, 10, 1, 0), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_p410", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 10, 1, 0), pl(Dst, U16, 2, 0, 0, 0, 0, 10, 1, 0), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba10_to_ra30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "rgba12_to_ar30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_gb12", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_i012", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 12, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_i012_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 12, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_i212", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 12, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_i212_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 12, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_i412", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_i412_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 12, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_p012", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Dst, U16, 2, 1, 1, 0, 0, 12, 1, 0), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_p212", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Dst, U16, 2, 1, 0, 0, 0, 12, 1, 0), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_p412", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 12, 1, 0), pl(Dst, U16, 2, 0, 0, 0, 0, 12, 1, 0), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba12_to_ra30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "rgba14_to_gb14", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgba14_to_i014", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 14, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgba14_to_i014_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 14, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgba14_to_i214", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 14, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgba14_to_i214_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 14, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgba14_to_i414", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgba14_to_i414_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 14, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "rgba16_to_gb16", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgba16_to_i016", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgba16_to_i016_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgba16_to_i216", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgba16_to_i216_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgba16_to_i416", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgba16_to_i416_be", fam: "ixxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 1), pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgba16_to_p016", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 1, 0), pl(Dst, U16, 2, 1, 1, 0, 0, 16, 1, 0), pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgba16_to_p216", fam: "pxxx", flags: MATRIX | RANGE, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 1, 0), pl(Dst, U16, 2, 1, 0, 0, 0, 16, 1, 0), pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rgba8_to_ar30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba8_to_ra30", fam: "ar30_rgb", flags: ORDER, planes: &[pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_bgr", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_bgra", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_gbr", fam: "gbr", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_rgb", fam: "shuffle", flags: 0, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_sharp_yuv420", fam: "sharp", flags: MATRIX | RANGE | GAMMA, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_sharp_yuv422", fam: "sharp", flags: MATRIX | RANGE | GAMMA, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_ycgco420", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_ycgco422", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_ycgco444", fam: "ycgco", flags: RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_yuv400", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_yuv420", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_yuv422", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_yuv444", fam: "yuv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_yuv_nv12", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_yuv_nv16", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_yuv_nv21", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_yuv_nv24", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_yuv_nv42", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rgba_to_yuv_nv61", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rotate_cbcr", fam: "rotate", flags: ROTATE, planes: &[pl(Src, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 2, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rotate_cbcr16", fam: "rotate", flags: ROTATE, planes: &[pl(Src, U16, 2, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 2, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rotate_plane", fam: "rotate", flags: ROTATE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rotate_plane16", fam: "rotate", flags: ROTATE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rotate_rgb", fam: "rotate", flags: ROTATE, planes: &[pl(Src, U8, 3, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rotate_rgb16", fam: "rotate", flags: ROTATE, planes: &[pl(Src, U16, 3, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "rotate_rgba", fam: "rotate", flags: ROTATE, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "rotate_rgba16", fam: "rotate", flags: ROTATE, planes: &[pl(Src, U16, 4, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "uyvy422_to_bgr", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "uyvy422_to_bgra", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "uyvy422_to_rgb", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "uyvy422_to_rgb_p16", fam: "packed422_rgb", flags: MATRIX | RANGE | DEPTH, planes: &[pl(Src, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "uyvy422_to_rgba", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "uyvy422_to_rgba_p16", fam: "packed422_rgb", flags: MATRIX | RANGE | DEPTH, planes: &[pl(Src, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "uyvy422_to_yuv420", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "uyvy422_to_yuv420_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "uyvy422_to_yuv422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "uyvy422_to_yuv422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "uyvy422_to_yuv444", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "uyvy422_to_yuv444_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "vyua_to_rgb", fam: "ayuv", flags: MATRIX | RANGE | FLAG, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "vyua_to_rgba", fam: "ayuv", flags: MATRIX | RANGE | FLAG, planes: &[pl(Src, U8, 4, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "vyuy422_to_bgr", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "vyuy422_to_bgra", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "vyuy422_to_rgb", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "vyuy422_to_rgb_p16", fam: "packed422_rgb", flags: MATRIX | RANGE | DEPTH, planes: &[pl(Src, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "vyuy422_to_rgba", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "vyuy422_to_rgba_p16", fam: "packed422_rgb", flags: MATRIX | RANGE | DEPTH, planes: &[pl(Src, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "vyuy422_to_yuv420", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "vyuy422_to_yuv420_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "vyuy422_to_yuv422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "vyuy422_to_yuv422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "vyuy422_to_yuv444", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "vyuy422_to_yuv444_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "y010_alpha_to_rgba10", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "y010_to_rgb10", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "y010_to_rgba10", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 10, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 10, 0, 0)] },
  Op { name: "y012_alpha_to_rgba12", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "y012_to_rgb12", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "y012_to_rgba12", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 12, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 12, 0, 0)] },
  Op { name: "y014_alpha_to_rgba14", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "y014_to_rgb14", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "y014_to_rgba14", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 14, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 14, 0, 0)] },
  Op { name: "y016_alpha_to_rgba16", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "y016_to_rgb16", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "y016_to_rgba16", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "ycgco420_alpha_to_bgra", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco420_alpha_to_rgba", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco420_to_bgr", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco420_to_bgra", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco420_to_rgb", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco420_to_rgba", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco422_alpha_to_bgra", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco422_alpha_to_rgba", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco422_to_bgr", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco422_to_bgra", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco422_to_rgb", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco422_to_rgba", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco444_alpha_to_bgra", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco444_alpha_to_rgba", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco444_to_bgr", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco444_to_bgra", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco444_to_rgb", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "ycgco444_to_rgba", fam: "ycgco", flags: RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv400_alpha_to_bgra", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv400_alpha_to_rgba", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv400_to_bgr", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv400_to_bgra", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv400_to_rgb", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv400_to_rgba", fam: "gray", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv420_alpha_to_bgra", fam: "yuv8", flags: MATRIX | RANGE | FLAG, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv420_alpha_to_rgba", fam: "yuv8", flags: MATRIX | RANGE | FLAG, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv420_to_bgr", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv420_to_bgra", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv420_to_rgb", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv420_to_rgba", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv420_to_uyvy422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 1, 0, 8, 0, 0)] },
  Op { name: "yuv420_to_uyvy422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 1, 0, 16, 0, 0)] },
  Op { name: "yuv420_to_vyuy422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 1, 0, 8, 0, 0)] },
  Op { name: "yuv420_to_vyuy422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 1, 0, 16, 0, 0)] },
  Op { name: "yuv420_to_yuyv422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 1, 0, 8, 0, 0)] },
  Op { name: "yuv420_to_yuyv422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 1, 0, 16, 0, 0)] },
  Op { name: "yuv420_to_yvyu422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 1, 1, 0, 8, 0, 0)] },
  Op { name: "yuv420_to_yvyu422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 1, 1, 0, 16, 0, 0)] },
  Op { name: "yuv422_alpha_to_bgra", fam: "yuv8", flags: MATRIX | RANGE | FLAG, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv422_alpha_to_rgba", fam: "yuv8", flags: MATRIX | RANGE | FLAG, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv422_to_bgr", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv422_to_bgra", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv422_to_rgb", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv422_to_rgba", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv422_to_uyvy422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 1, 0, 8, 0, 0)] },
  Op { name: "yuv422_to_uyvy422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 1, 0, 16, 0, 0)] },
  Op { name: "yuv422_to_vyuy422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 1, 0, 8, 0, 0)] },
  Op { name: "yuv422_to_vyuy422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 1, 0, 16, 0, 0)] },
  Op { name: "yuv422_to_yuyv422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 1, 0, 8, 0, 0)] },
  Op { name: "yuv422_to_yuyv422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 1, 0, 16, 0, 0)] },
  Op { name: "yuv422_to_yvyu422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 1, 0, 1, 0, 8, 0, 0)] },
  Op { name: "yuv422_to_yvyu422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 1, 0, 1, 0, 16, 0, 0)] },
  Op { name: "yuv444_alpha_to_bgra", fam: "yuv8", flags: MATRIX | RANGE | FLAG, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv444_alpha_to_rgba", fam: "yuv8", flags: MATRIX | RANGE | FLAG, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv444_to_bgr", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv444_to_bgra", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv444_to_rgb", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv444_to_rgba", fam: "yuv8", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv444_to_uyvy422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0)] },
  Op { name: "yuv444_to_uyvy422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0)] },
  Op { name: "yuv444_to_vyuy422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0)] },
  Op { name: "yuv444_to_vyuy422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0)] },
  Op { name: "yuv444_to_yuyv422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0)] },
  Op { name: "yuv444_to_yuyv422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0)] },
  Op { name: "yuv444_to_yvyu422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0), pl(Src, U8, 1, 0, 0, 1, 0, 8, 0, 0)] },
  Op { name: "yuv444_to_yvyu422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0), pl(Src, U16, 1, 0, 0, 1, 0, 16, 0, 0)] },
  Op { name: "yuv_nv12_to_bgr", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv12_to_bgra", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv12_to_rgb", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv12_to_rgba", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv16_to_bgr", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv16_to_bgra", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv16_to_rgb", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv16_to_rgba", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv21_to_bgr", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv21_to_bgra", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv21_to_rgb", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv21_to_rgba", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv24_to_bgr", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv24_to_bgra", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv24_to_rgb", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv24_to_rgba", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv42_to_bgr", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv42_to_bgra", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv42_to_rgb", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv42_to_rgba", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv61_to_bgr", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv61_to_bgra", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv61_to_rgb", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuv_nv61_to_rgba", fam: "nv8", flags: MATRIX | RANGE | MODE, planes: &[pl(Src, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 2, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuyv422_to_bgr", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuyv422_to_bgra", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuyv422_to_rgb", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuyv422_to_rgb_p16", fam: "packed422_rgb", flags: MATRIX | RANGE | DEPTH, planes: &[pl(Src, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "yuyv422_to_rgba", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yuyv422_to_rgba_p16", fam: "packed422_rgb", flags: MATRIX | RANGE | DEPTH, planes: &[pl(Src, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "yuyv422_to_yuv420", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "yuyv422_to_yuv420_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "yuyv422_to_yuv422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "yuyv422_to_yuv422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "yuyv422_to_yuv444", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "yuyv422_to_yuv444_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "yvyu422_to_bgr", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yvyu422_to_bgra", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yvyu422_to_rgb", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 3, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yvyu422_to_rgb_p16", fam: "packed422_rgb", flags: MATRIX | RANGE | DEPTH, planes: &[pl(Src, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Dst, U16, 3, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "yvyu422_to_rgba", fam: "packed422_rgb", flags: MATRIX | RANGE, planes: &[pl(Src, U8, 4, 0, 0, 0, 1, 8, 0, 0), pl(Dst, U8, 4, 0, 0, 0, 0, 8, 0, 0)] },
  Op { name: "yvyu422_to_rgba_p16", fam: "packed422_rgb", flags: MATRIX | RANGE | DEPTH, planes: &[pl(Src, U16, 4, 0, 0, 0, 1, 16, 0, 0), pl(Dst, U16, 4, 0, 0, 0, 0, 16, 0, 0)] },
  Op { name: "yvyu422_to_yuv420", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 1, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "yvyu422_to_yuv420_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 1, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "yvyu422_to_yuv422", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 1, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "yvyu422_to_yuv422_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 1, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
  Op { name: "yvyu422_to_yuv444", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Dst, U8, 1, 0, 0, 0, 0, 8, 0, 0), pl(Src, U8, 4, 0, 0, 1, 1, 8, 0, 0)] },
  Op { name: "yvyu422_to_yuv444_p16", fam: "packed422_planar", flags: TWOIMG, planes: &[pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Dst, U16, 1, 0, 0, 0, 0, 16, 0, 0), pl(Src, U16, 4, 0, 0, 1, 1, 16, 0, 0)] },
];
