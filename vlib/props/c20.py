"""C20: camera settings, side effects and reproducibility over call histories."""
import copy

import numpy as np
from hypothesis import strategies as st

from emva1288.camera.camera import Camera
from emva1288.camera.routines import Qe, nearest_value
from .. import gen
from ..core import Sub, require, same, short


def build(c, seed):
    rng = np.random.default_rng(c['pat'])
    h, w, nw = c['h'], c['w'], c['nw']
    lam = 500.0 + 30 * np.arange(nw)
    own = {'qe': rng.uniform(0.2, 0.9, (h, w, nw)), 'w': lam, 'dsnu': rng.standard_normal((h, w)) * 4,
           'prnu': 1 + 0.05 * rng.standard_normal((h, w))}
    kw = dict(width=w, height=h, bit_depth=c['bits'], seed=seed, exposure=c['exp'], temperature=c['T'], f_number=c['f'],
              K=c['K'], K_min=c['K_min'], K_max=c['K_max'], K_steps=c['K_steps'], blackoffset=c['bo'],
              blackoffset_min=c['bo_min'], blackoffset_max=c['bo_max'], blackoffset_steps=c['bo_steps'])
    cam = Camera(qe=Qe(qe=own['qe'], wavelength=own['w'], width=w, height=h), dsnu=own['dsnu'], prnu=own['prnu'], **kw)
    return cam, own


def nearest(got, value, offered, what):
    offered = np.asarray(offered, float)
    d = np.abs(offered - value)
    require(np.any(offered == float(got)), '%s: %r is not an offered value', what, got)
    require(abs(float(got) - value) <= d.min() * (1 + 1e-12) + 1e-12 * abs(value), '%s: %r set for %r, %r is nearer', what,
            got, value, offered[d.argmin()])


class Model(object):
    """What the settings must be."""

    def __init__(self, c):
        self.c = c
        self.K, self.bo, self.exp, self.T, self.f = c['K'], c['bo'], c['exp'], c['T'], c['f']
        top = c['bo_max'] if c['bo_max'] is not None else (2 ** c['bits'] - 1) // 16
        self.Ks = np.linspace(c['K_min'], c['K_max'], c['K_steps'])
        self.bos = np.linspace(c['bo_min'], top, c['bo_steps'])

    def check(self, cam, what):
        require(np.allclose(cam.Ks, self.Ks, rtol=1e-9, atol=1e-12) and len(cam.Ks) == len(self.Ks), '%s: offered gains %s',
                what, short(cam.Ks))
        require(np.shape(cam.blackoffsets) == self.bos.shape and np.allclose(cam.blackoffsets, self.bos, rtol=1e-9, atol=1e-9),
                '%s: offered offsets %s, expected %s', what, short(cam.blackoffsets), short(self.bos))
        nearest(cam.K, self.K, cam.Ks, what + ': gain')
        nearest(cam.blackoffset, self.bo, cam.blackoffsets, what + ': offset')
        require(cam.exposure == self.exp, '%s: exposure %r, expected %r', what, cam.exposure, self.exp)
        require(cam.environment == {'temperature': self.T, 'f_number': self.f}, '%s: environment %s, expected %s, %s', what,
                cam.environment, self.T, self.f)
        c = self.c
        require((cam.width, cam.height, cam.bit_depth, cam.img_max) == (c['w'], c['h'], c['bits'], 2 ** c['bits'] - 1),
                '%s: geometry %s', what, (cam.width, cam.height, cam.bit_depth, cam.img_max))


def call(cam, op, rads):
    """Perform one call; returns what it gave."""
    k, a = op['op'], op.get('a')
    if k == 'K':
        cam.K = a
    elif k == 'bo':
        cam.blackoffset = a
    elif k == 'exp':
        cam.exposure = a
    elif k == 'T':
        cam.environment['temperature'] = a
    elif k == 'f':
        cam.environment['f_number'] = a
    elif k == 'grab':
        kw = {}
        if op.get('T') is not None:
            kw['temperature'] = op['T']
        if op.get('f') is not None:
            kw['f_number'] = op['f']
        return cam.grab(rads[a], **kw)
    elif k == 'photons':
        kw = {}
        if op.get('e') is not None:
            kw['exposure'] = op['e']
        if op.get('f') is not None:
            kw['f_number'] = op['f']
        return cam.get_photons(rads[a], **kw)
    elif k == 'rad':
        kw = {}
        if op.get('m') is not None:
            kw['mean'] = op['m']
        if op.get('e') is not None:
            kw['exposure'] = op['e']
        return cam.get_radiance_for(**kw)
    return None


def patient(cam, op, rads):
    """The same call with per-image settings made permanent before and taken back after."""
    if op['op'] not in ('grab', 'photons'):
        return call(cam, op, rads)
    env, exp = dict(cam.environment), cam.exposure
    if op.get('T') is not None:
        cam.environment['temperature'] = op['T']
    if op.get('f') is not None:
        cam.environment['f_number'] = op['f']
    if op.get('e') is not None:
        cam.exposure = op['e']
    out = call(cam, {k: v for k, v in op.items() if k not in ('T', 'f', 'e')}, rads)
    cam.environment.clear()
    cam.environment.update(env)
    cam.exposure = exp
    return out


def check(case, ctx):
    c = case['cam']
    cam, own = build(c, c['seed'])
    twin, own2 = build(c, c['seed'])
    slow, _own = build(c, c['seed'])
    other, _own = build(c, c['seed'] + 1)
    kept = copy.deepcopy(own)
    model = Model(c)
    base = cam.get_radiance_for(mean=2 ** c['bits'] / 2)
    same(base, twin.get_radiance_for(mean=2 ** c['bits'] / 2), 'radiance of equal cameras')
    base = np.maximum(base, 0)           # dark current alone can be above that mean
    rads = [np.zeros_like(base), base * 0.2, base, base * 5]
    rads_kept = [r.copy() for r in rads]
    model.check(cam, 'new camera')
    grabs = differ = 0
    for n, op in enumerate(case['ops']):
        what = 'after %d calls (%s)' % (n + 1, op)
        if op['op'] == 'idle':
            # another camera is used in between
            other.grab(rads[1])
            other.K = c['K_max']
            np.random.random()
            continue
        got = call(cam, op, rads)
        if op['op'] in ('K', 'bo', 'exp', 'T', 'f'):
            setattr(model, op['op'], op['a'])
        model.check(cam, what)
        t, s = call(twin, op, rads), patient(slow, op, rads)
        if got is not None:
            same(t, got, what + ': same seed, same calls')
            same(s, got, what + ': given for the call or set before it')
            require(t is not got, '%s: cameras share their images', what)
        if op['op'] == 'grab':
            grabs += 1
            o = other.grab(rads[op['a']])
            differ += not np.array_equal(o, got)
            a = np.ma.getdata(got)
            a[...] = 0                       # scribbling on an image must not matter
            np.ma.getdata(t)[...] = 1
            np.ma.getdata(s)[...] = 2
    for k in kept:
        same(own[k], kept[k], 'array given for %s' % k)
    for r, k in zip(rads, rads_kept):
        same(r, k, 'radiance passed in')
    model.check(slow, 'per-call settings taken back')
    used = [o['op'] for o in case['ops']]
    ctx.label('grabs %s' % ('0' if not grabs else '1-3' if grabs < 4 else '4+'),
              *['has ' + u for u in set(used)])
    if any(o['op'] == 'grab' and (o.get('T') is not None or o.get('f') is not None) for o in case['ops']):
        ctx.label('per-image settings')
    if grabs == 0 or len(set(used)) < 2:
        ctx.trivial()


@st.composite
def ops(draw):
    k = draw(st.sampled_from(['K', 'bo', 'exp', 'T', 'f', 'grab', 'grab', 'grab', 'photons', 'rad', 'read', 'idle']))
    if k == 'K':
        return {'op': k, 'a': draw(st.one_of(gen.logfloat(0.001, 100), st.sampled_from([0.1, 1.0, 17.0])))}
    if k == 'bo':
        return {'op': k, 'a': draw(st.one_of(st.floats(-5, 300), st.integers(0, 20)))}
    if k == 'exp':
        return {'op': k, 'a': draw(st.one_of(gen.logfloat(1, 1e12), gen.logfloat(1e5, 1e9), st.integers(1000, 10 ** 11)))}
    Ts = st.sampled_from([0, -20, 22, 35.5, 60, -75.0, 105])
    fs = st.one_of(st.sampled_from([1.4, 4, 8, 22, 0.5, 45, 64.0]), st.floats(0.3, 200))
    T, f = st.one_of(st.none(), Ts), st.one_of(st.none(), fs)
    if k == 'T':
        return {'op': k, 'a': draw(Ts)}
    if k == 'f':
        return {'op': k, 'a': draw(fs)}
    if k == 'grab':
        return {'op': k, 'a': draw(st.integers(0, 3)), 'T': draw(T), 'f': draw(f)}
    e = st.one_of(st.none(), gen.logfloat(1, 1e12), gen.logfloat(1e5, 1e9))
    if k == 'photons':
        return {'op': k, 'a': draw(st.integers(0, 3)), 'e': draw(e), 'f': draw(f)}
    if k == 'rad':
        return {'op': k, 'm': draw(st.one_of(st.none(), st.floats(1, 200))), 'e': draw(e)}
    return {'op': k}


@st.composite
def histories(draw, longest):
    c = {'h': draw(st.integers(1, 8)), 'w': draw(st.integers(1, 8)), 'nw': draw(st.integers(1, 3)),
         'bits': draw(st.sampled_from([4, 8, 8, 10, 12, 16])), 'seed': draw(st.integers(0, 2 ** 32 - 2)), 'pat': draw(gen.seeds()),
         'exp': draw(st.sampled_from([500000, 1e6, 2e7])), 'T': draw(st.sampled_from([10, 22, 40.5])),
         'f': draw(st.sampled_from([2.8, 8])), 'K': draw(gen.logfloat(0.01, 30)), 'K_min': draw(st.sampled_from([0.05, 0.1, 1.0])),
         'K_max': draw(st.sampled_from([2.5, 17.0])), 'K_steps': draw(st.sampled_from([2, 7, 255])),
         'bo': draw(st.floats(0, 40)), 'bo_min': draw(st.sampled_from([0, 0, 3])),
         'bo_max': draw(st.sampled_from([None, None, 0, 12, 63.5])), 'bo_steps': draw(st.sampled_from([2, 5, 255]))}
    return {'cam': c, 'ops': draw(st.lists(ops(), min_size=1, max_size=longest))}


def check_nearest(case, ctx):
    arr = np.array(case['arr'], dtype=float)
    kept = arr.copy()
    nearest(nearest_value(case['v'], arr), case['v'], arr, 'nearest_value')
    same(arr, kept, 'array')
    ctx.label('outside' if not arr.min() <= case['v'] <= arr.max() else 'inside')
    if len(arr) < 2:
        ctx.trivial()


NUMS = st.one_of(st.integers(-50, 50).map(float), st.floats(-1e6, 1e6))


def check_seeds(case, ctx):
    """Different seeds give different images."""
    c = case['cam']
    imgs = []
    seeds = [c['seed']]
    for d in case['apart']:
        other = (seeds[0] + d) % 2 ** 32
        if other not in seeds:
            seeds.append(other)
    for seed in seeds:
        cam, _own = build(dict(c, h=24, w=24, bits=12, bo=60.0, bo_max=100.0, K=1.0), seed)
        imgs.append([cam.grab(np.maximum(cam.get_radiance_for(mean=1500.0), 0)) for _ in range(2)])
    flat = [i for pair in imgs for i in pair]
    for i in range(len(flat)):
        for j in range(i):
            require(not np.array_equal(flat[i], flat[j]), 'images %d and %d of cameras with seeds %s are equal', j, i, seeds)


# how far seeds are apart: neighbours, multiples of round numbers, powers of two, anything
APART = st.lists(st.one_of(st.integers(1, 5), st.integers(1, 9).flatmap(lambda k: st.integers(1, 9).map(lambda m: m * 10 ** k)),
                           st.integers(1, 31).map(lambda k: 2 ** k), st.integers(1, 2 ** 31)), min_size=1, max_size=2)


SUBS = [Sub('histories', lambda tier: histories(25 if tier == 'quick' else 60), check, 2500, 40000,
            'a camera and a sequence of up to 25 (thorough 60) calls: settings, grabs with and without per-image settings, '
            'queries, use of other cameras, scribbling on images; model of all settings after every call, a twin with the '
            'same seed, and a twin getting per-call settings permanently; non-trivial with a grab and another call'),
        Sub('nearest', lambda tier: st.fixed_dictionaries({'arr': st.lists(NUMS, min_size=1, max_size=30), 'v': NUMS}),
            check_nearest, 3000, 60000, 'an array of offered values in any order and a requested value; non-trivial with two '
            'or more values'),
        Sub('seeds', lambda tier: st.fixed_dictionaries({'cam': histories(1).map(lambda c: c['cam']), 'apart': APART}), check_seeds, 100, 2000,
            'cameras with two or three different seeds, also ones a power of two or ten or a multiple of 5 apart, two images each, pairwise different; always non-trivial')]
