SEEDS = [
dict(id='S04-numexpr-threads', prop='C13',
 edits=[('source/tomopy/util/mproc.py', '        ne.set_num_threads(self.oldn)\n', '        if exc_type is None:\n            ne.set_num_threads(self.oldn)\n')],
 needs='a call that fails inside the numexpr section (fields that do not fit), followed by a look at the thread count of the process',
 breaks='the thread count of numexpr is not put back when the call raises',
 demo='''
import sys
import numpy as np, numexpr as ne, tomopy
ne.set_num_threads(3)
a = np.ones((4, 5, 6), 'f4')
try:
    tomopy.normalize(a, np.ones((1, 7, 6), 'f4') * 2, np.zeros((1, 7, 6), 'f4'), ncore=1)
    raised = False
except Exception:
    raised = True
now = ne.set_num_threads(3)
print(raised, now)
sys.exit(0 if raised and now == 3 else 1)
'''),
dict(id='S05-flat-inplace', prop='C08',
 edits=[('source/tomopy/prep/normalize.py', """    if averaging == 'mean':
        flat = np.mean(flat, axis=0, dtype=np.float32)
        dark = np.mean(dark, axis=0, dtype=np.float32)
""", """    if averaging == 'mean':
        flat = dtype.as_float32(flat[0]) if len(flat) == 1 else np.mean(flat, axis=0, dtype=np.float32)
        dark = np.mean(dark, axis=0, dtype=np.float32)
"""), ('source/tomopy/prep/normalize.py', """        denom = ne.evaluate('flat-dark')
""", """        denom = ne.evaluate('flat-dark', out=flat)
""")],
 needs='a single float32 flat frame (2-D or one frame); with several frames or another dtype the averaged copy is used',
 breaks='the flat field of the caller is overwritten by the denominator',
 demo='''
import sys
import numpy as np, tomopy
rng = np.random.default_rng(0)
t = rng.random((5, 4, 6)).astype('f4') + 1
bad = []
for sh in ((3, 4, 6), (1, 4, 6), (4, 6)):
    f = rng.random(sh).astype('f4') + 3
    d = rng.random(sh).astype('f4')
    f0, d0 = f.copy(), d.copy()
    tomopy.normalize(t, f, d, ncore=1)
    if not (np.array_equal(f, f0) and np.array_equal(d, d0)):
        bad.append(sh)
print(bad)
sys.exit(1 if bad else 0)
'''),
dict(id='S06-sort-window', prop='C19',
 edits=[('source/tomopy/prep/stripe.py', """            size = max(5, int(0.01 * tomo.shape[2]))
    for m in range(tomo.shape[1]):
        sino = tomo[:, m, :]
        tomo[:, m, :] = _rs_sort""", """            size = max(5, int(0.01 * tomo.shape[1]))
    for m in range(tomo.shape[1]):
        sino = tomo[:, m, :]
        tomo[:, m, :] = _rs_sort""")],
 needs='pieces of more than 599 slices (the default window then follows the number of slices in the piece instead of the image width)',
 breaks='the filter window, and with it the result, depends on how the slices are divided over workers',
 demo='''
import sys
import numpy as np, tomopy
t = np.random.default_rng(0).random((4, 1300, 40)).astype('f4')
a = tomopy.prep.stripe.remove_stripe_based_sorting(t, ncore=1)
b = tomopy.prep.stripe.remove_stripe_based_sorting(t, ncore=1, nchunk=50)
print(np.abs(a - b).max())
sys.exit(0 if np.array_equal(a, b) else 1)
'''),
dict(id='S07-crop-nopad', prop='C20',
 edits=[('source/tomopy/prep/stripe.py', "    return matfilter[pad:nrow - pad, pad:ncol - pad]\n", "    return matfilter[pad:-pad, pad:-pad]\n")],
 needs='fewer than ten projections, so that the pad is zero and the crop [0:-0] is empty',
 breaks='the padded sinogram is not cropped back to its own size: remove_stripe_based_fitting fails for small data',
 demo='''
import sys
import numpy as np, tomopy
bad = []
for n in (24, 11, 10, 9, 8):
    t = np.random.default_rng(0).random((n, 2, 30)).astype('f4') + 1
    try:
        r = tomopy.prep.stripe.remove_stripe_based_fitting(t, order=1, ncore=1)
        ok = r.shape == t.shape
    except ValueError as e:
        ok = False
    if not ok:
        bad.append(n)
print(bad)
sys.exit(1 if bad else 0)
'''),
dict(id='S08-cutoff-out', prop='C17',
 edits=[('source/tomopy/prep/normalize.py', "            ne.evaluate('where(out>cutoff,cutoff,out)', out=out)", "            out = ne.evaluate('where(out>cutoff,cutoff,out)')")],
 needs='an output array together with a cutoff that some value exceeds',
 breaks='the given output array holds the values before the cutoff and is not what is returned',
 demo='''
import sys
import numpy as np, tomopy
rng = np.random.default_rng(0)
t = rng.random((5, 4, 6)).astype('f4') * 3
f = np.ones((2, 4, 6), 'f4'); d = np.zeros((2, 4, 6), 'f4')
bad = []
for cut in (None, 1.0):
    out = np.zeros_like(t)
    r = tomopy.normalize(t, f, d, cutoff=cut, out=out, ncore=1)
    w = tomopy.normalize(t, f, d, cutoff=cut, ncore=1)
    if r is not out or not np.array_equal(out, w):
        bad.append(cut)
print(bad)
sys.exit(1 if bad else 0)
'''),
dict(id='S09-lost-tail', prop='C10',
 edits=[('source/tomopy/util/mproc.py', "    for i in range(0, axis_size, nchunk or 1):", "    for i in range(0, nchunk * (axis_size // nchunk) if nchunk else axis_size, nchunk or 1):")],
 needs='a chunk size that does not divide the axis: the last, shorter piece is never handed out',
 breaks='the elements beyond the last full chunk keep what the shared array held',
 demo='''
import sys
import numpy as np
from tomopy.util import mproc
def f(x):
    return x + 1
bad = []
for n in (6, 7, 8):
    for c in (0, 1, 2, 3):
        a = np.arange(n * 2, dtype='f4').reshape(n, 2)
        r = mproc.distribute_jobs(a.copy(), f, axis=0, ncore=1, nchunk=c)
        if not np.array_equal(r, a + 1):
            bad.append((n, c))
print(bad)
sys.exit(1 if bad else 0)
'''),
dict(id='S10-pool-wait', prop='C12',
 edits=[('source/tomopy/util/mproc.py', "            res.get()\n", "            res.wait()\n")],
 needs='work spread over processes of which one piece raises',
 breaks='the call returns an array with the failed piece missing instead of raising',
 demo='''
import sys
import numpy as np
from tomopy.util import mproc
def f(x):
    if x.max() > 5:
        raise ValueError('bad piece')
    return x + 1
try:
    r = mproc.distribute_jobs(np.arange(8, dtype='f4').reshape(8, 1), f, axis=0, ncore=2, nchunk=2)
except ValueError:
    print('raised')
    sys.exit(0)
print(r.ravel())
sys.exit(1)
'''),
dict(id='S11-roi-clip', prop='C14',
 edits=[('source/tomopy/prep/normalize.py', """    arr = dtype.as_float32(arr)

    arr = mproc.distribute_jobs(
        arr,
        func=_normalize_roi,
""", """    arr = dtype.as_float32(arr)
    roi[2] = min(roi[2], arr.shape[1])
    roi[3] = min(roi[3], arr.shape[2])

    arr = mproc.distribute_jobs(
        arr,
        func=_normalize_roi,
""")],
 needs='a call on images smaller than the window (default or given), then a call on larger images with the same list or with the default',
 breaks='the default window, or the list of the caller, stays clipped to the smaller image',
 demo='''
import sys
import numpy as np, tomopy
rng = np.random.default_rng(0)
big = rng.random((3, 20, 30)).astype('f4') + 1
small = rng.random((3, 6, 7)).astype('f4') + 1
a = tomopy.normalize_roi(big, ncore=1)
tomopy.normalize_roi(small, ncore=1)
b = tomopy.normalize_roi(big, ncore=1)
roi = [0, 0, 12, 12]
tomopy.normalize_roi(small, roi=roi, ncore=1)
print(np.array_equal(a, b), roi)
sys.exit(0 if np.array_equal(a, b) and roi == [0, 0, 12, 12] else 1)
'''),
dict(id='S12-median-layout', prop='C02',
 edits=[('source/tomopy/misc/corr.py', """        extern.c_median_filt3d_uint16(
            np.ascontiguousarray(arr), out, kernel_half_size, dif, ncore, dx, dy, dz
        )
    return out


def remove_outlier3d""", """        extern.c_median_filt3d_uint16(
            arr, out, kernel_half_size, dif, ncore, dx, dy, dz
        )
    return out


def remove_outlier3d""")],
 needs='a uint16 volume that is not C-contiguous',
 breaks='the native median filter reads the memory of a strided or transposed volume as if it were contiguous',
 demo='''
import sys
import numpy as np, tomopy
v = np.random.default_rng(0).integers(0, 60000, (6, 7, 16)).astype('u2')
bad = []
for name, a in (('C', v), ('F', np.asfortranarray(v)), ('strided', v[:, :, ::2])):
    try:
        r = tomopy.misc.corr.median_filter3d(a, size=3, ncore=1)
        ok = np.array_equal(r, tomopy.misc.corr.median_filter3d(np.ascontiguousarray(a), size=3, ncore=1))
    except Exception as e:
        ok = False
    if not ok:
        bad.append(name)
print(bad)
sys.exit(1 if bad else 0)
'''),
dict(id='S13-seam', prop='C18',
 edits=[('source/tomopy/misc/morph.py', "        out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] +", "        if overlap > 1:\n            out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] +")],
 needs="rotation='left' with an overlap of exactly one pixel",
 breaks='the seam column of the joined sinogram is never written: the result holds uninitialised memory',
 demo='''
import sys
import numpy as np
from tomopy.misc import morph
real = np.empty
def dirty(*a, **k):
    r = real(*a, **k)
    r.fill(12345)
    return r
t = np.random.default_rng(0).random((6, 2, 9)).astype('f4')
np.empty = dirty
try:
    bad = [o for o in (0, 1, 2, 3) if o and (morph.sino_360_to_180(t, overlap=o, rotation='left') == 12345).any()]
finally:
    np.empty = real
print(bad)
sys.exit(1 if bad else 0)
'''),
dict(id='S14-filter-axis', prop='C16',
 edits=[('source/tomopy/misc/corr.py', "    filt_size[axis] = size\n", "    filt_size[-1 if axis else 0] = size\n")],
 needs='axis=1: axes 0 and 2 still work',
 breaks='remove_outlier1d filters along the last axis when asked for axis 1',
 demo='''
import sys
import numpy as np, tomopy
rng = np.random.default_rng(0)
bad = []
for ax in (0, 1, 2):
    a = np.zeros((7, 8, 9), 'f4') + np.arange(9, dtype='f4')[None, None, :] * (ax != 2) * 100 \\
        + np.arange(7, dtype='f4')[:, None, None] * (ax != 0) * 100
    a[3, 4, 4] += 5000
    r = tomopy.misc.corr.remove_outlier1d(a, 10, size=3, axis=ax, ncore=1)
    b = a.copy(); b[3, 4, 4] -= 5000
    if not np.array_equal(r, b):
        bad.append(ax)
print(bad)
sys.exit(1 if bad else 0)
'''),
dict(id='S15-fbp-zero', prop='C11',
 edits=[('source/libtomo/recon/fbp.c', "            sin_p    = sinf(theta_p);\n", "            if(theta_p == 0.0f && p > 0)\n                continue;\n            sin_p    = sinf(theta_p);\n")],
 needs='a projection at angle exactly 0 that is not the first one (fbp)',
 breaks='that projection is not backprojected',
 demo='''
import sys
import numpy as np, tomopy
t = np.random.default_rng(0).random((5, 1, 8)).astype('f4') + 1
th = np.array([-0.6, -0.3, 0.0, 0.3, 0.6], 'f4')
kw = dict(algorithm='fbp', filter_name='none', ncore=1)
a = tomopy.recon(t, th, **kw)
bad = []
for p in range(5):
    u = t.copy(); u[p] *= 1.5
    if np.array_equal(tomopy.recon(u, th, **kw), a):
        bad.append(p)
print(bad)
sys.exit(1 if bad else 0)
'''),
dict(id='S16-step-first', prop='C09',
 edits=[('source/libtomo/recon/tikh.c', "                        lambda[s] * grad[ind_recon", "                        lambda[0] * grad[ind_recon")],
 needs='tikh with at least two slices in one group, an automatic step (negative reg_par[0]) and two iterations',
 breaks='every slice is updated with the step length of the first slice of its group',
 demo='''
import sys
import numpy as np, tomopy
t = np.random.default_rng(0).random((9, 3, 12)).astype('f4')
t[:, 1] *= 4
kw = dict(algorithm='tikh', num_iter=3, reg_par=[-1, 0.1], ncore=1)
try:
    a = tomopy.recon(t, tomopy.angles(9), **kw)
except Exception as e:
    print(e); sys.exit(2)
bad = [i for i in range(3) if not np.array_equal(tomopy.recon(t[:, i:i+1], tomopy.angles(9), **kw)[0], a[i])]
print(bad)
sys.exit(1 if bad else 0)
'''),
]
