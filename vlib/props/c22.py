"""C22: measuring plans and generated data sets."""
import gc
import os

import numpy as np
from hypothesis import strategies as st
from PIL import Image

from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.camera.points_generator import PointsGenerator
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.parser import ParseEmvaDescriptorFile
from .. import cams, dataset, gen
from ..core import Sub, require, close

Z = 8.0


def is_dark(rad):
    return not np.any(np.asarray(rad))


def sat_radiance(c, K, target, exposure):
    """Radiance level (equal at every pixel; per wavelength the same photons) giving the target, summed light electrons."""
    return target / K - cams.thermal(c, c['T'], exposure)


def electrons(c, rad, exposure):
    """Light electrons before the response factors."""
    w, q, filt = cams.qe_array(c)
    if filt is not None:
        q = q * filt
    return (cams.photons(rad, exposure, c['area'], w, c['f']) * q).sum(axis=2)


def check_plan(pts, plan, c, K, bo, what):
    """The points of a plan against its documented definition; returns {kind: [(exposure, radiance)]}."""
    n, top = plan['steps'], 2 ** c['bits'] - 1
    shape = (c['h'], c['w'], c['nw'])
    require(set(pts) == {'spatial', 'temporal'}, '%s: kinds %s', what, sorted(pts))
    out = {k: [(t, np.broadcast_to(np.asarray(r, float), shape)) for t, rs in pts[k].items() for r in rs] for k in pts}
    T, S = pts['temporal'], pts['spatial']
    if plan['fixed'] is None:
        lo, hi = plan['lo'], plan['hi']
        exps = np.array(sorted(T))
        require(len(exps) == n, '%s: %d exposures for %d steps', what, len(exps), n)
        want = lo + (hi - lo) * np.arange(n) / (n - 1)
        close(exps, want, what + ': exposures', rtol=1e-9, atol=0.0501)
        mid = exps[n // 2]
        require([float(t) for t in S] == [float(mid)], '%s: spatial exposures %s, middle is %s', what, list(S), mid)
        for t, rs in list(T.items()) + list(S.items()):
            require(len(rs) == 2, '%s: %d light levels at exposure %s', what, len(rs), t)
            dark = [r for r in rs if is_dark(r)]
            bright = [r for r in rs if not is_dark(r)]
            require(len(dark) == 1 and len(bright) == 1, '%s: %d dark and %d bright levels at %s', what, len(dark), len(bright), t)
            e = float(electrons(c, np.broadcast_to(bright[0], shape), hi).mean())
            close(K * (e + cams.thermal(c, c['T'], hi)), top, '%s: gray value of the bright level at the longest exposure' % what,
                  rtol=1e-6, atol=1e-6 * K * cams.thermal(c, c['T'], hi))
        return out
    t0 = plan['fixed']
    require([float(t) for t in T] == [float(t0)] and [float(t) for t in S] == [float(t0)],
            '%s: exposures %s and %s for fixed %s', what, list(T), list(S), t0)
    (rs,), (ss,) = T.values(), S.values()
    bright = sorted((np.broadcast_to(r, shape) for r in rs if not is_dark(r)), key=lambda r: float(r.mean()))
    require(len(bright) == n and len(rs) == n + 1, '%s: %d bright of %d light levels for %d steps', what, len(bright), len(rs), n)
    lev = []
    for r in bright:
        close(r, np.full(shape, r.flat[0]), what + ': uniform radiance', rtol=1e-9)
        lev.append(float(r.flat[0]))
    lev = np.array(lev)
    close(lev, lev[0] + (lev[-1] - lev[0]) * np.arange(n) / (n - 1), what + ': evenly spaced levels', rtol=1e-9)
    w, q, filt = cams.qe_array(c)

    def mean_level(target):
        # same photons at every wavelength; the plan uses the average radiance
        qq = q if filt is None else q * filt
        up = sat_radiance(c, K, target, t0) / c['nw'] / qq.mean()
        return float(np.mean(cams.radiance(up, t0, c['area'], w, c['f'])))

    if plan['rmax'] is not None:
        close(lev[-1], plan['rmax'], what + ': highest level', rtol=1e-9)
    else:
        close(lev[-1], mean_level(top), what + ': highest level (saturation)', rtol=1e-6)
    if plan['rmin'] is not None:
        close(lev[0], plan['rmin'], what + ': lowest level', rtol=1e-9)
    else:
        # one step above the dark signal, whose mean is measured on one noisy image
        _e, me, ve = cams.light(c, 0, c['T'], c['f'], t0)
        me, ve = np.broadcast_to(me, (c['h'], c['w'])), np.broadcast_to(ve, (c['h'], c['w']))
        if (me - 7 * np.sqrt(ve) > 0).all() and K * (me - 7 * np.sqrt(ve)).min() + bo > 1 and \
                K * (me + 7 * np.sqrt(ve)).max() + bo < top - 1 and (me + 7 * np.sqrt(ve)).max() < c['esat']:
            m = K * me.mean() + bo
            tol = Z * np.sqrt((K * K * ve.mean() + 0.5) / me.size)
            a, b = (mean_level((top - x) / n + x) for x in (m - tol, m + tol))
            require(min(a, b) - 1e-9 * abs(a) <= lev[0] <= max(a, b) + 1e-9 * abs(a), '%s: lowest level %g, expected %g..%g',
                    what, lev[0], a, b)
    mid = [r for r in ss if not is_dark(r)]
    require(len(ss) == 2 and len(mid) == 1, '%s: spatial light levels %d, %d bright', what, len(ss), len(mid))
    close(np.broadcast_to(mid[0], shape), bright[n // 2], what + ': middle level', rtol=1e-9)
    return out


def usable_plan(c, plan, K, bo):
    """Radiances positive and levels distinct."""
    top = 2 ** c['bits'] - 1
    if plan['fixed'] is None:
        return sat_radiance(c, K, top, plan['hi']) > 0
    s = sat_radiance(c, K, top, plan['fixed'])
    w, q, filt = cams.qe_array(c)
    q = q if filt is None else q * filt
    one = float(np.mean(cams.radiance(1 / c['nw'] / q.mean(), plan['fixed'], c['area'], w, c['f'])))
    hi = s if plan['rmax'] is None else plan['rmax'] / one
    if plan['rmin'] is None:
        _e, me, _v = cams.light(c, 0, c['T'], c['f'], plan['fixed'])
        d = min(max(float(np.mean(me)) * K + bo, bo), top)
        lo = sat_radiance(c, K, (top - d) / plan['steps'] + d, plan['fixed'])
    else:
        lo = plan['rmin'] / one
    return 0 < lo <= 0.8 * hi


def limits(case, c, K):
    """Turn relative radiance limits of a case into absolute ones."""
    plan = dict(case['plan'])
    if plan['fixed'] is not None:
        w, q, _f = cams.qe_array(c)
        s = abs(sat_radiance(c, K, 2 ** c['bits'] - 1, plan['fixed'])) / c['nw'] / q.mean()
        full = float(np.mean(cams.radiance(s, plan['fixed'], c['area'], w, c['f'])))
        for k in ('rmin', 'rmax'):
            if plan[k] is not None:
                plan[k] = plan[k] * full
    return plan


def check_points(case, ctx):
    c = case['cam']
    cam = cams.make(c, exposure_min=case['emin'], exposure_max=case['emax'])
    K, bo = float(cam.K), float(cam.blackoffset)
    plan = limits(case, c, K)
    kw = {'steps': plan['steps']}
    if plan['steps'] == 100:
        # the number of points when none is given
        kw = {}
        ctx.label('steps not given')
    if plan['fixed'] is not None:
        kw['exposure_fixed'] = plan['fixed']
        for k in ('rmin', 'rmax'):
            if plan[k] is not None:
                kw['radiance_' + k[1:]] = plan[k]
        plan['fixed'] = round(plan['fixed'])
    else:
        plan['lo'], plan['hi'] = case['emin'], case['emax']
        for k, name in (('lo', 'exposure_min'), ('hi', 'exposure_max')):
            if case[k] is not None:
                plan[k] = kw[name] = case[k]
    if case['gain'] is not None:
        kw['gain'] = case['gain']
        K = float(min(cam.Ks, key=lambda v: abs(v - case['gain'])))
    if case['black'] is not None:
        kw['blackref'] = case['black']
        bo = float(min(cam.blackoffsets, key=lambda v: abs(v - case['black'])))
    ctx.label('illumination' if plan['fixed'] is not None else 'exposure', 'steps %s' % (
        '2-4' if plan['steps'] < 5 else '5-20' if plan['steps'] < 21 else '21+'))
    if not usable_plan(c, plan, K, bo):
        ctx.trivial()
        return
    pts = PointsGenerator(cam, **kw).points
    check_plan(pts, plan, c, K, bo, 'plan')
    require(float(cam.K) == K, 'gain %s, requested %s', cam.K, case['gain'])
    require(float(cam.blackoffset) == bo, 'black offset %s, requested %s', cam.blackoffset, case['black'])
    for a, b in ((case['lo'], 'lo limit'), (case['hi'], 'hi limit'), (case['plan']['rmin'], 'rmin'), (case['plan']['rmax'], 'rmax')):
        if a is not None:
            ctx.label('requested ' + b)


def read_descriptor(path):
    """(bits, width, height), [(kind, exposure, photons, [files])] straight from the text."""
    geo, blocks = None, []
    with open(path) as f:
        for line in f.read().splitlines():
            p = line.split()
            if not p or p[0] == '#':
                continue
            if p[0] == 'v':
                continue
            if p[0] == 'n':
                geo = tuple(int(x) for x in p[1:4])
            elif p[0] in 'bd':
                blocks.append((p[0], float(p[1]), float(p[2]) if p[0] == 'b' else 0.0, []))
            elif p[0] == 'i':
                blocks[-1][3].append(os.path.normpath(os.path.join(os.path.dirname(path), p[1].replace('\\', '/'))))
            else:
                require(False, 'descriptor line %r', line)
    return geo, blocks


def image_model(c, K, bo, rad, t, imgs, what):
    """8-sigma test of the overall mean of the images against the camera model; False when clipped."""
    top = 2 ** c['bits'] - 1
    _e, me, ve = cams.light(c, rad, c['T'], c['f'], t)
    me, ve = np.broadcast_to(me, (c['h'], c['w'])), np.broadcast_to(ve, (c['h'], c['w']))
    sd = np.sqrt(ve)
    ok = (me - 7 * sd > 0).all() and (me + 7 * sd < c['esat']).all() and (K * (me - 7 * sd) + bo > 1).all() and \
        (K * (me + 7 * sd) + bo < top - 1).all()
    a = np.stack(imgs).astype(float)
    require(a.max() <= top, '%s: gray value %g with %d bits', what, a.max(), c['bits'])
    if not ok:
        over = (me - 7 * sd > c['esat']).all() or (K * (me - 7 * sd) + bo > top + 1).all()
        if over:
            lim = min(top, int(np.floor(K * c['esat'] + bo - 1)))
            require(a.min() >= lim, '%s: saturated image goes down to %g', what, a.min())
        return False
    n = a.size
    d = a.mean() - (K * me + bo).mean()
    tol = Z * np.sqrt((K * K * ve.mean() + 0.5) / n)
    require(abs(d) < tol, '%s: mean %g, model %g +- %g', what, a.mean(), (K * me + bo).mean(), tol)
    if K * K * ve.min() > 0.5 and n >= 80:
        for i in range(1, len(imgs)):
            require(not np.array_equal(imgs[i], imgs[i - 1]), '%s: the same image twice', what)
    return True


def check_dataset(case, ctx):
    c = case['cam']
    with dataset.scratch() as d:
        kw = dict(f_number=c['f'], pixel_area=c['area'], bit_depth=c['bits'], width=c['w'], height=c['h'], temperature=c['T'],
                  temperature_ref=c['Tref'], temperature_doubling=c['T2'], exposure_min=case['emin'], exposure_max=case['emax'],
                  dark_current_ref=c['current'], dark_signal_0=c['ds0'], sigma2_dark_0=c['sd0'], u_esat=c['esat'], seed=c['seed'])
        w, q, filt = cams.qe_array(c)
        kw['qe'] = cams.Qe(qe=q, wavelength=w, width=c['w'], height=c['h'], filter=filt)
        kw['dsnu'], kw['prnu'] = cams.maps(c)
        if case['auto'] not in ('K', 'both'):
            kw.update(K=c['K'], K_min=min(0.001, c['K']), K_max=25.0, K_steps=20000)
        else:
            kw.update(K_min=c['K'] / 3, K_max=c['K'] * 3, K_steps=20)
        if case['auto'] in ('bo', 'both'):
            kw.update(blackoffset_steps=30)
        else:
            kw.update(blackoffset=c['bo'], blackoffset_max=max(2.0 ** c['bits'] / 5, 1), blackoffset_steps=801)
        kv = dict(kw)
        args = {'steps': case['plan']['steps'], 'L': case['L'], 'image_format': case['format']}
        plan = limits(case, c, c['K'])
        if plan['fixed'] is not None:
            args['exposure_fixed'] = plan['fixed']
            for k in ('rmin', 'rmax'):
                if plan[k] is not None:
                    args['radiance_' + k[1:]] = plan[k]
            plan['fixed'] = round(plan['fixed'])
        else:
            plan['lo'], plan['hi'] = case['emin'], case['emax']
        out = os.path.join(d, 'set') if case['outdir'] else None
        relative = out and case['relative']
        if out:
            args['outdir'] = os.path.basename(out) if relative else out
        if case['version'] is not None:
            args['version'] = case['version']
        if case['plan']['steps'] == 100:
            del args['steps']
        if case['L'] == 50:
            del args['L']
        if case['format'] == 'png':
            del args['image_format']
        ctx.label('illumination' if plan['fixed'] is not None else 'exposure', case['format'], 'auto %s' % case['auto'],
                  'relative outdir' if relative else 'outdir' if out else 'temporary', '%d bits' % (8 if c['bits'] <= 8 else 16 if c['bits'] <= 16 else 32))
        if case['auto'] != 'none' and plan['fixed'] is not None and (plan['rmin'] is None) and plan['rmax'] is not None:
            ctx.trivial()
            return
        if case['auto'] == 'none' and not usable_plan(c, plan, c['K'] * 1.001, c['bo']):
            ctx.trivial()
            return
        if case['auto'] != 'none' and cams.thermal(c, c['T'], case['emax']) * c['K'] * 3 > 0.1 * (2 ** c['bits'] - 1):
            ctx.trivial()
            return
        cwd = os.getcwd()
        try:
            if relative:
                os.chdir(d)
            g = DatasetGenerator(**args, **kv)
        finally:
            os.chdir(cwd)
        K, bo = float(g.cam.K), float(g.cam.blackoffset)
        if case['auto'] not in ('K', 'both'):
            require(abs(K - c['K']) <= 25.0 / 19999 + 1e-12, 'gain %g, requested %g', K, c['K'])
        pts = check_plan(g.points, plan, c, K, bo, 'points')
        path = g.descriptor_path
        require(os.path.isabs(path), 'descriptor path %s is not absolute', path)
        require(os.path.isfile(path), 'descriptor %s does not exist', path)
        root = os.path.realpath(out or g.outdir)
        require(os.path.realpath(path).startswith(root + os.sep), 'descriptor %s outside %s', path, root)
        geo, blocks = read_descriptor(path)
        require(geo == (c['bits'], c['w'], c['h']), 'geometry %s for %s', geo, (c['bits'], c['w'], c['h']))
        files = [f for b in blocks for f in b[3]]
        require(len(set(files)) == len(files), 'image files are used twice')
        todo = [('temporal', 2, t, r) for t, r in pts['temporal']] + [('spatial', case['L'], t, r) for t, r in pts['spatial']]
        require(len(todo) == len(blocks), '%d blocks for %d planned points', len(blocks), len(todo))
        tested = 0
        for kind, e, ph, names in blocks:
            match = None
            for k, (pk, n, t, r) in enumerate(todo):
                if n != len(names) or (kind == 'd') != is_dark(r) or abs(e - t) > 0.0501:
                    continue
                want = float(cams.photons(r, t, c['area'], w, c['f']).sum(axis=2).mean())
                if kind == 'd' or abs(ph - want) <= 0.00051 + 1e-9 * want:
                    match = k
                    break
            require(match is not None, 'block %s %s %s with %d images is not a planned point', kind, e, ph, len(names))
            _k, n, t, r = todo.pop(match)
            imgs = []
            for f in names:
                require(os.path.isfile(f), 'image %s does not exist', f)
                with Image.open(f) as im:
                    require(im.size == (c['w'], c['h']), 'image of size %s', im.size)
                    imgs.append(np.array(im))
            tested += image_model(c, K, bo, r, t, imgs, 'images of %s %s %s' % (kind, e, ph))
        # accepted by the processing chain
        p = ParseEmvaDescriptorFile(path)
        data = Data1288(LoadImageData(p.images).data)
        if len({round(float(t), 1) for t, _r in pts['spatial']}) == 1:
            n = case['plan']['steps']
            for k in ('texp', 'u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark'):
                require(len(data.data['temporal'][k]) == n, '%d values of %s for %d steps', len(data.data['temporal'][k]), k, n)
            require((data.data['spatial']['L'], data.data['spatial']['L_dark']) == (case['L'], case['L']), 'spatial image counts')
            require((data.data['spatial']['M'], data.data['spatial']['N']) == (c['h'], c['w']), 'spatial frame size')
            u = np.asarray(data.data['temporal']['u_p'])
            require((u > 0).all() and (np.diff(u) > 0).all(), 'photon counts do not increase: %s', u)
        require(p.version == (case['version'] or '4.0'), 'data version %r, requested %r', p.version, case['version'])
        require(tuple(p.format[k] for k in ('bits', 'width', 'height')) == geo, 'parsed geometry %s', p.format)
        del p, data
        del g
        gc.collect()
        if out:
            require(all(os.path.isfile(f) for f in files + [path]), 'files in the given folder disappeared')
        else:
            require(not os.path.exists(root), 'temporary folder %s was left behind', root)
        ctx.label('image means tested %s' % ('0' if not tested else '1-3' if tested < 4 else '4+'))
        if not tested:
            ctx.trivial()


@st.composite
def base(draw, max_dim, max_steps, bits=None):
    c = draw(cams.configs(max_dim=max_dim, min_dim=2, bits=bits))
    emin = draw(st.sampled_from([500000, 1000000, 123456.7, 1e4]))
    emax = emin * draw(st.sampled_from([3, 20.5, 1000]))
    steps = draw(st.integers(3, max_steps))
    fixed = draw(st.one_of(st.none(), st.sampled_from([1e6, 5000000, 20e6, 123456])))
    plan = {'steps': steps, 'fixed': fixed, 'rmin': None, 'rmax': None}
    if fixed is not None:
        plan['rmin'] = draw(st.one_of(st.none(), st.floats(0.01, 0.3)))
        plan['rmax'] = draw(st.one_of(st.none(), st.floats(0.5, 1.5)))
    return {'cam': c, 'emin': emin, 'emax': emax, 'plan': plan}


@st.composite
def point_cases(draw):
    d = draw(base(8, 120))
    d['plan']['steps'] = draw(st.one_of(st.integers(2, 12), st.integers(2, 150), st.just(100)))
    d['lo'] = draw(st.one_of(st.none(), st.sampled_from([0.0, 1e3, 54321.5, 1e6])))
    d['hi'] = draw(st.one_of(st.none(), st.sampled_from([2e6, 7654321.5, 5e9])))
    lo, hi = d['emin'] if d['lo'] is None else d['lo'], d['emax'] if d['hi'] is None else d['hi']
    if hi < 1.5 * lo:
        d['lo'] = d['hi'] = None
    d['gain'] = draw(st.one_of(st.none(), gen.logfloat(0.01, 20)))
    d['black'] = draw(st.one_of(st.none(), st.sampled_from([0, 0.0, 1, 7.3]), st.floats(0, 2.0 ** d['cam']['bits'] / 5)))
    return d


def c_small(c):
    """Small frames for the default number of points and images."""
    c['h'], c['w'] = min(c['h'], 8), min(c['w'], 8)
    return True


@st.composite
def set_cases(draw):
    bits = draw(st.sampled_from([8, 8, 10, 12, 14, 16, 6, 9, 20, 24]))
    d = draw(base(24, 9, bits))
    d['L'] = draw(st.integers(3, 6))
    d['version'] = draw(st.sampled_from([None, None, '3.0', '3.1', '4.0']))
    if draw(st.integers(0, 39)) == 17 and c_small(d['cam']):
        d['plan']['steps'], d['L'] = 100, 50
    elif draw(st.integers(0, 39)) == 23 and c_small(d['cam']):
        d['plan']['steps'], d['L'] = draw(st.integers(3, 4)), draw(st.integers(51, 300))
    d['format'] = draw(st.sampled_from(['png', 'png', 'tif', 'bmp'] if bits <= 8 else ['png', 'tif'] if bits <= 16 else ['tif', 'tiff']))
    d['outdir'], d['relative'] = draw(st.booleans()), draw(st.booleans())
    d['auto'] = draw(st.sampled_from(['none', 'none', 'none', 'none', 'K', 'bo', 'both']))
    c = d['cam']
    # gains and offsets that leave room for unsaturated points
    c['esat'] = max(c['esat'], 1e5)
    return d


SUBS = [Sub('points', lambda tier: point_cases(), check_points, 1500, 30000,
            'a camera of any configuration and an exposure or illumination plan with 2..150 steps and requested or default '
            'limits: exposures, radiance levels, spatial point; non-trivial when the camera can saturate within the plan'),
        Sub('dataset', lambda tier: set_cases(), check_dataset, 400, 8000,
            'a generated data set (3..9 steps, L 3..6, png/tif/bmp, 6..24 bits, own or temporary folder, given or automatic '
            'gain and offset): descriptor and image files against the plan, image means against the camera model, accepted '
            'by parser, loader and data stage; non-trivial when at least one point is unsaturated')]
