#!/usr/bin/env python3
"""Regenerates node/src/dispatch.rs and simctl/src/ops.rs from rustdoc JSON of the crate.

usage: gen_ops.py yuv.json      (made by: cargo rustdoc -p yuv --all-features -- -Z unstable-options --output-format json)
The generated files are committed; checks do not run this script (a changed signature is a build error of the node).
"""
import json, re, sys, os
j = json.load(open(sys.argv[1]))
idx = j['index']
HERE = os.path.dirname(os.path.abspath(__file__))

def ty(t):
    if t is None: return '()'
    k, v = next(iter(t.items()))
    if k == 'primitive': return v
    if k == 'borrowed_ref': return '&' + ('mut ' if v['is_mutable'] else '') + ty(v['type'])
    if k == 'slice': return '[' + ty(v) + ']'
    if k == 'resolved_path':
        a = v['args']; s = (v.get('path') or v.get('name')).split('::')[-1]
        if a and 'angle_bracketed' in a:
            x = [ty(q['type']) for q in a['angle_bracketed']['args'] if 'type' in q]
            if x: s += '<' + ','.join(x) + '>'
        return s
    return k

fns = {}
for i in idx[str(j['root'])]['inner']['module']['items']:
    it = idx[str(i)]; inn = it['inner']
    if 'use' in inn:
        u = inn['use']; t = idx.get(str(u['id']))
        if t and 'function' in t['inner']:
            sig = t['inner']['function']['sig']
            fns[u['name']] = [(n, ty(x)) for n, x in sig['inputs']]

def subsampling(n):
    m = re.search(r'nv(12|21|16|61|24|42)', n)
    if m: return {'12': (1, 1), '21': (1, 1), '16': (1, 0), '61': (1, 0), '24': (0, 0), '42': (0, 0)}[m[1]]
    m = re.search(r'(?:yuv|ycgco)(420|422|444)', n)
    if m: return {'420': (1, 1), '422': (1, 0), '444': (0, 0)}[m[1]]
    m = re.search(r'(?:icgc|[ip])([024])1[0246]', n)
    if m: return {'0': (1, 1), '2': (1, 0), '4': (0, 0)}[m[1]]
    if re.search(r'gb(r|1[0246])|rdp_', n): return (0, 0)
    return None

def rgb_ch(side):
    """channels of the interleaved rgb-like slice named in `side` of the function name"""
    s = side
    if re.search(r'[ra]{2}30|ab30|ba30', s): return 4
    if re.search(r'rgba|bgra|argb|abgr', s): return 4
    if re.search(r'rgb|bgr', s): return 3
    if 'cbcr' in s: return 2
    if 'plane' in s or 'planar' in s: return 1
    raise Exception(side)

def depth_of(part):
    m = re.search(r'(?:[ipy]|icgc)[024]?(1[0246])(?!\d)', part)
    m2 = re.search(r'(?:gb|rgba?|bgra?)(1[0246])', part)
    if m2: return int(m2[1])
    m3 = re.search(r'(?:icgc|[ip])[024](1[0246])|y0(1[0246])|(?:icgc|[ipy])0(1[0246])', part)
    m4 = re.search(r'(?:icgc|[ip])[024]([12468]?\d)', part)
    m5 = re.search(r'(?:icgc|[ipy])(\d)(\d\d)', part)
    if m5: return int(m5[2])
    return None

ELEM = {'u8': 'U8', 'u16': 'U16', 'i16': 'I16', 'f16': 'F16'}
ops = []
for name, args in fns.items():
    planes = []      # (role, elem, ch, sx, sy, img, packed422, bits, msb, be)
    # split the name in source and destination part
    base = name
    rot = base.startswith('rotate_'); mir = base.startswith('mirror_')
    if rot or mir: sp = dp = base.split('_', 1)[1]
    elif base.startswith('rdp_'): sp, dp = base[4:].split('_to_')
    elif base.startswith('convert_'): sp, dp = base[8:].split('_to_')
    else: sp, dp = base.split('_to_')
    sub = subsampling(name)
    call = []; img = 0; kinds = []
    be = '_be' in name
    pre = []; kargs = []
    nslice = 0
    var_depth = any(n == 'bit_depth' for n, _ in args)
    # strides of plain slices
    for k, (an, at) in enumerate(args):
        m = re.match(r'&(mut )?(Yuv\w+)<(\w+)>', at)
        if m:
            mut = bool(m[1]); st = m[2]; el = m[3]; role = 'Dst' if mut else 'Src'
            part = dp if mut else sp
            bits = depth_of(part) or 8 if el == 'u16' else (8 if el == 'u8' else 16)
            if el == 'u16' and '_p16' in name: bits = 16
            msb = 'BiPlanar' in st and el == 'u16'
            i0 = len(planes)
            P = lambda ch, sx, sy, pk=0: planes.append((role, ELEM[el], ch, sx, sy, img, pk, bits, int(msb), int(be and el == 'u16')))
            if st.startswith('YuvBiPlanarImage'):
                P(1, 0, 0); P(2, *sub); f = [('y_plane', 'y_stride'), ('uv_plane', 'uv_stride')]
            elif st.startswith('YuvPlanarImageWithAlpha'):
                P(1, 0, 0); P(1, *sub); P(1, *sub); P(1, 0, 0)
                f = [(c + '_plane', c + '_stride') for c in 'yuva']
            elif st.startswith('YuvPlanarImage'):
                # the planar partner of a packed 4:2:2 image has the subsampling in its own name part
                s2 = sub
                mm = re.search(r'yuv(420|422|444)', part)
                if mm: s2 = {'420': (1, 1), '422': (1, 0), '444': (0, 0)}[mm[1]]
                P(1, 0, 0); P(1, *s2); P(1, *s2); f = [(c + '_plane', c + '_stride') for c in 'yuv']
            elif st.startswith('YuvGrayAlphaImage'):
                P(1, 0, 0); P(1, 0, 0); f = [('y_plane', 'y_stride'), ('a_plane', 'a_stride')]
            elif st.startswith('YuvGrayImage'):
                P(1, 0, 0); f = [('y_plane', 'y_stride')]
            elif st.startswith('YuvPackedImage'):
                if 'ayuv' in part or 'vyua' in part: P(4, 0, 0)
                else: P(4, 0, 0, 1)
                f = [('yuy', 'yuy_stride')]
            else: raise Exception(st)
            rt = {'f16': 'f16'}.get(el, el)
            flds = []
            for q, (pn, sn) in enumerate(f):
                if mut: flds.append(f'{pn}: BufferStoreMut::Borrowed(md::<{rt}>(c, {i0+q})), {sn}: c.planes[{i0+q}].stride as u32')
                else: flds.append(f'{pn}: ms::<{rt}>(c, {i0+q}), {sn}: c.planes[{i0+q}].stride as u32')
            body = f'{st} {{ {", ".join(flds)}, width: c.w[{img}], height: c.h[{img}] }}'
            h = {'YuvBiPlanarImage': 'biplanar', 'YuvPlanarImageWithAlpha': 'planar_alpha', 'YuvPlanarImage': 'planar', 'YuvGrayAlphaImage': 'gray_alpha',
                 'YuvGrayImage': 'gray', 'YuvPackedImage': 'packed' if planes[i0][6] else 'ayuv'}[st.removesuffix('Mut')]
            sb = {(1, 1): 'Yuv420', (1, 0): 'Yuv422', (0, 0): 'Yuv444'}[(planes[i0 + 1][3], planes[i0 + 1][4]) if len(planes) > i0 + 1 else (0, 0)]
            pre.append((f'own::{h}_{"mut" if mut else "src"}(c, {body}, {i0}, {img}, YuvChromaSubsampling::{sb}, |i{k}: &{"mut " if mut else ""}{st}<{rt}>| ', ')'))
            kargs.append(f'i{k}')
            img += 1
            continue
        m = re.match(r'&(mut )?\[(\w+)\]', at)
        if m:
            mut = bool(m[1]); el = m[2]; role = 'Dst' if mut else 'Src'; part = dp if mut else sp
            ch = rgb_ch(part if part != 'f16' and not part.startswith('planar') else sp)
            bits = {'u8': 8, 'f16': 16}.get(el) or depth_of(part) or 16
            i0 = len(planes)
            planes.append((role, ELEM[el], ch, 0, 0, 0, 0, bits, 0, 0))
            kargs.append(f'md::<{el}>(c, {i0})' if mut else f'ms::<{el}>(c, {i0})')
            last = i0
            continue
        if an.endswith('stride'):
            kargs.append(f'c.planes[{last}].stride as {at}'); continue
        if an == 'width': kargs.append(f'c.w[0] as {at}'); continue
        if an == 'height': kargs.append(f'c.h[0] as {at}'); continue
        e = {'YuvRange': 'rng(c)', 'YuvStandardMatrix': 'mtx(c)', 'YuvConversionMode': 'cm(c)', 'Rgb30ByteOrder': 'bo(c)',
             'SharpYuvGammaTransfer': 'gm(c)', 'RotationMode': 'rm(c)', 'MirrorMode': 'mm(c)', 'bool': 'c.flag != 0'}.get(at)
        if e: kargs.append(e); continue
        if an == 'bit_depth': kargs.append(f'c.depth as {at}'); continue
        raise Exception((name, an, at))
    at = {t for _, t in args}
    fl = []
    if 'YuvStandardMatrix' in at: fl.append('MATRIX')
    if 'YuvRange' in at: fl.append('RANGE')
    if 'YuvConversionMode' in at: fl.append('MODE')
    if 'bool' in at: fl.append('FLAG')
    if 'Rgb30ByteOrder' in at: fl.append('ORDER')
    if 'SharpYuvGammaTransfer' in at: fl.append('GAMMA')
    if rot: fl.append('ROTATE')
    if mir: fl.append('MIRROR')
    if var_depth: fl.append('DEPTH')
    if img == 2: fl.append('TWOIMG')
    fam = ('sharp' if 'sharp' in name else 'rotate' if rot else 'mirror' if mir else 'f16conv' if name.startswith('convert_') else
           'rdp' if name.startswith('rdp_') else 'packed422_planar' if 'TWOIMG' in fl else
           'packed422_rgb' if re.search('yuyv|uyvy|yvyu|vyuy', name) else 'ayuv' if re.search('ayuv|vyua', name) else
           'icgc' if 'icgc' in name else 'ycgco' if 'ycgco' in name else 'gbr' if re.search(r'(^|_)gb(r|1)', name) else
           'ar30_rgb' if re.search(r'(^|_)(ar|ra|ab|ba)30', name) and not re.search('[ip][024]1', name) else
           'planar_ar30' if re.search('30$', name) else
           'shuffle' if len(planes) == 2 and not fl else
           'gray' if re.search(r'400|y01', name) else
           'nv8' if 'nv' in name else 'pxxx' if re.search(r'p[024]1', name) else
           'ixxx' if re.search(r'i[024]1', name) else 'yuv8')
    ops.append((name, planes, fl, fam, pre, kargs))

ops.sort()
with open(os.path.join(HERE, '../simctl/src/ops.rs'), 'w') as f:
    f.write('// @generated by gen/gen_ops.py\nuse crate::spec::*;\nuse Role::*;\nuse Elem::*;\n')
    f.write(f'pub const N_OPS: usize = {len(ops)};\npub static OPS: [Op; {len(ops)}] = [\n')
    for name, planes, fl, fam, pre, kargs in ops:
        ps = ', '.join(f'pl({r}, {e}, {c}, {sx}, {sy}, {i}, {pk}, {b}, {m}, {be})' for r, e, c, sx, sy, i, pk, b, m, be in planes)
        f.write(f'  Op {{ name: "{name}", fam: "{fam}", flags: {" | ".join(fl) or "0"}, planes: &[{ps}] }},\n')
    f.write('];\n')
with open(os.path.join(HERE, '../node/src/dispatch.rs'), 'w') as f:
    f.write('// @generated by gen/gen_ops.py\nuse crate::*;\nuse yuv::*;\nuse core::f16;\n')
    f.write('type F = unsafe fn(&RawCall) -> i32;\n')
    f.write(f'pub static TABLE: [F; {len(ops)}] = [\n')
    for name, planes, fl, fam, pre, kargs in ops:
        f.write(f'  |c| unsafe {{ {"".join(a for a, _ in pre)}ret({name}({", ".join(kargs)})){"".join(b for _, b in pre)} }},\n')
    f.write('];\n')
from collections import Counter
print(len(ops), Counter(o[3] for o in ops))
for n in ['i010_be_to_rgb10','rgb10_to_p010','p012_to_rgb12','i210_alpha_be_to_rgba10','yuv420_to_yuyv422','rgb_to_yuv_nv21','rotate_cbcr16','convert_rgb_f16_to_rgb16','rdp_abgr_to_yuv444','y016_alpha_to_rgba16','gb14_to_rgb14','icgc210_to_rgb10','i214_to_ra30','rgb12_to_ra30','uyvy422_to_rgb_p16','rgb16_to_p016','yuv400_alpha_to_bgra','p010_to_rgb']:
    for o in ops:
        if o[0] == n: print(o[0], o[1], o[2], o[3])
