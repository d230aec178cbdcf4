//! What the generated operation table says about each public function.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Src,
    Dst,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Elem {
    U8,
    U16,
    I16,
    F16,
}
impl Elem {
    pub fn size(self) -> usize {
        if self == Elem::U8 { 1 } else { 2 }
    }
}
#[derive(Debug)]
pub struct PlaneSpec {
    pub role: Role,
    pub elem: Elem,
    /// elements per plane pixel
    pub ch: usize,
    /// log2 horizontal / vertical subsampling
    pub sx: u32,
    pub sy: u32,
    /// which image of the call (two images in the packed 4:2:2 <-> planar conversions)
    pub img: usize,
    /// packed 4:2:2: four elements for every started pair of pixels
    pub packed: bool,
    pub bits: u32,
    pub msb: bool,
    pub be: bool,
}
pub const fn pl(role: Role, elem: Elem, ch: usize, sx: u32, sy: u32, img: usize, packed: u8, bits: u32, msb: u8, be: u8) -> PlaneSpec {
    PlaneSpec { role, elem, ch, sx, sy, img, packed: packed != 0, bits, msb: msb != 0, be: be != 0 }
}
pub const MATRIX: u32 = 1;
pub const RANGE: u32 = 2;
pub const MODE: u32 = 4;
pub const FLAG: u32 = 8;
pub const ORDER: u32 = 16;
pub const GAMMA: u32 = 32;
pub const ROTATE: u32 = 64;
pub const MIRROR: u32 = 128;
pub const DEPTH: u32 = 256;
pub const TWOIMG: u32 = 512;
pub struct Op {
    pub name: &'static str,
    pub fam: &'static str,
    pub flags: u32,
    pub planes: &'static [PlaneSpec],
}
impl Op {
    pub fn has(&self, f: u32) -> bool {
        self.flags & f != 0
    }
    /// takes or fills a YUV image, not only plain slices
    pub fn has_image(&self) -> bool {
        !matches!(self.fam, "f16conv" | "shuffle" | "ar30_rgb" | "mirror" | "rotate")
    }
    /// (row elements, rows) of plane `p` for image sizes `w`, `h`
    pub fn geom(&self, p: usize, w: [u32; 2], h: [u32; 2], geo: u32) -> (usize, usize) {
        let s = &self.planes[p];
        let (mut pw, mut ph) = (w[s.img] as usize, h[s.img] as usize);
        if self.has(ROTATE) && s.role == Role::Dst && geo != 1 {
            std::mem::swap(&mut pw, &mut ph);
        }
        if s.packed {
            return (pw.div_ceil(2) * 4, ph);
        }
        let rw = (pw + (1 << s.sx) - 1) >> s.sx;
        let rh = (ph + (1 << s.sy) - 1) >> s.sy;
        (rw * s.ch, rh)
    }
}
