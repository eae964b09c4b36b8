"""The public functions and how the analysis calls them.

base: argument values (Arr: array of unknown contents).  var: lists of alternative values per parameter (one changed at a
time).  bad: selector values outside the documented set.  shape: 'param' whose geometry the result keeps.  src: the
result's element stems from the input element at the same place.  inplace: parameters documented to be modified.
out: name of the output-array parameter.  noise: documented as random.
"""
from pyscen import Arr, Scn, Same, Ref

CORES = [1, 2, 3, 8, None]
CHUNK = [None, 1, 2, 5]
ALGS = ['art', 'bart', 'fbp', 'gridrec', 'mlem', 'osem', 'ospml_hybrid', 'ospml_quad', 'pml_hybrid', 'pml_quad', 'sirt',
        'tv', 'grad', 'tikh']
ITER = [a for a in ALGS if a not in ('fbp', 'gridrec')]


def options(NA, NS, NC):
    return {
        'num_gridx': 6, 'num_gridy': 4, 'num_iter': 2, 'num_block': 2, 'filter_name': 'hann',
        'filter_par': Arr(2), 'ind_block': Arr(NA, dt='int32'), 'reg_par': Arr(10), 'reg_data': Arr(NS, NC, NC),
    }


AOPT = {}
for _a in ALGS:
    o = ['num_gridx', 'num_gridy']
    if _a in ('fbp', 'gridrec'):
        o += ['filter_name', 'filter_par']
    else:
        o += ['num_iter']
    if _a in ('bart', 'osem', 'ospml_hybrid', 'ospml_quad'):
        o += ['num_block', 'ind_block']
    if _a in ('ospml_hybrid', 'ospml_quad', 'pml_hybrid', 'pml_quad', 'tv', 'grad', 'tikh'):
        o += ['reg_par']
    if _a == 'tikh':
        o += ['reg_data']
    AOPT[_a] = o
ACC = {'mlem', 'sirt'}


class F:
    def __init__(self, fn, base, var=None, bad=None, shape=None, src=False, inplace=(), out=None, noise=False, cores=True,
                 combos=(), nolay=False, retlist=False, arrays=None, unordered=False, cpuvar=True, files=False, dead=(),
                 skip=(), lim=None):
        self.fn, self.base, self.var, self.bad = fn, base, var or {}, bad or {}
        self.shape, self.src, self.inplace, self.out, self.noise = shape, src, set(inplace), out, noise
        self.combos, self.nolay, self.cores, self.files = combos, nolay, cores, files
        self.dead = set(dead)
        self.skip = set(skip)
        self.lim = lim or {}

    def arrays(self):
        return [k for k, v in self.base.items() if isinstance(v, Arr)]


def table(NA=5, NS=3, NC=7):
    """angles, slices, columns: all different"""
    t = []
    T = Arr(NA, NS, NC, main=True)
    TH = Arr(NA)
    OPTS = options(NA, NS, NC)

    def f(*a, **k):
        t.append(F(*a, **k))

    nc = {'ncore': CORES}
    ncc = {'ncore': CORES, 'nchunk': CHUNK}
    ax = {'axis': [0, 1, 2]}
    badax = {'axis': [3, 7]}
    # ---- prep.normalize
    N = 'prep.normalize.'
    f(N + 'minus_log', dict(arr=T, ncore=2, out=None), nc, shape='arr', src=True, out='out')
    f(N + 'normalize', dict(arr=T, flat=Arr(4, NS, NC), dark=Arr(2, NS, NC), cutoff=None, ncore=2, out=None,
                            averaging='mean'), dict(nc, cutoff=[None, 1.5], averaging=['mean', 'median']),
      bad=dict(averaging=['mode', 'nosuch']), shape='arr', src=True, out='out')
    f(N + 'normalize', dict(arr=T, flat=Arr(NS, NC), dark=Arr(NS, NC), cutoff=None, ncore=2, out=None, averaging='mean'),
      dict(flat=[Arr(1, NS, NC)], dark=[Arr(1, NS, NC)], averaging=['mean', 'median']), shape='arr', src=True, out='out')
    f(N + 'normalize_nf', dict(tomo=T, flats=Arr(6, NS, NC), dark=Arr(1, NS, NC), flat_loc=[0, 3, 5], cutoff=None, ncore=2,
                               out=None, averaging='mean'), dict(dark=[Arr(NS, NC)], averaging=['mean', 'median']),
      shape='tomo', src=True, out='out')
    f(N + 'normalize_roi', dict(arr=T, roi=[0, 0, 2, 3], ncore=2), nc, shape='arr', src=True)
    f(N + 'normalize_bg', dict(tomo=T, air=1, ncore=2, nchunk=None), dict(ncc, air=[1, 2]), shape='tomo', src=True,
      lim=dict(air=[0, NC + 1, 500]))
    f(N + 'normalize_nf', dict(tomo=T, flats=Arr(6, NS, NC), dark=Arr(2, NS, NC), flat_loc=[0, 3, 5], cutoff=None, ncore=2,
                               out=None, averaging='mean'),
      dict(nc, cutoff=[None, 1.5], averaging=['mean', 'median'], flat_loc=[[0, 3, 5], [1, 2]]),
      bad=dict(averaging=['mode', 'nosuch']), shape='tomo', src=True, out='out')
    # ---- prep.phase
    f('prep.phase.retrieve_phase', dict(tomo=T, pixel_size=1e-4, dist=50, energy=20, alpha=1e-3, pad=True, ncore=2, nchunk=None),
      dict(ncc, pad=[True, False]), shape='tomo')
    # ---- prep.stripe
    S = 'prep.stripe.'
    f(S + 'remove_stripe_fw', dict(tomo=T, level=None, wname='db5', sigma=2, pad=True, ncore=2, nchunk=None),
      dict(ncc, level=[None, 1, 2], wname=['db5', 'haar', 'db2'], pad=[True, False]), shape='tomo', src=True)
    f(S + 'remove_stripe_ti', dict(tomo=T, nblock=0, alpha=1.5, ncore=2, nchunk=None), dict(ncc, nblock=[0, 1, 2]),
      shape='tomo')
    # sizes at which the internal padding is not empty
    L = Arr(NA + 18, NS, NC, main=True)
    f(S + 'remove_stripe_fw', dict(tomo=L, level=2, wname='db5', sigma=2, pad=True, ncore=2, nchunk=None), dict(), shape='tomo')
    f(S + 'remove_stripe_based_filtering', dict(tomo=L, sigma=3, size=3, dim=1, ncore=2, nchunk=None), dict(dim=[1, 2]), shape='tomo')
    f(S + 'remove_stripe_based_fitting', dict(tomo=L, order=1, sigma=(5, 20), ncore=2, nchunk=None), dict(), shape='tomo')
    f(S + 'remove_stripe_sf', dict(tomo=T, size=5, ncore=2, nchunk=None), dict(ncc, size=[5, 3]), shape='tomo', src=True)
    f(S + 'remove_stripe_based_sorting', dict(tomo=T, size=None, dim=1, ncore=2, nchunk=None),
      dict(ncc, size=[None, 3], dim=[1, 2]), shape='tomo')
    f(S + 'remove_stripe_based_filtering', dict(tomo=T, sigma=3, size=None, dim=1, ncore=2, nchunk=None),
      dict(ncc, size=[None, 3], dim=[1, 2]), shape='tomo')
    f(S + 'remove_stripe_based_fitting', dict(tomo=T, order=1, sigma=(5, 20), ncore=2, nchunk=None), ncc, shape='tomo')
    f(S + 'remove_large_stripe', dict(tomo=T, snr=3, size=3, drop_ratio=0.1, norm=True, ncore=2, nchunk=None),
      dict(ncc, norm=[True, False]), shape='tomo')
    f(S + 'remove_dead_stripe', dict(tomo=T, snr=3, size=3, norm=True, ncore=2, nchunk=None),
      dict(ncc, norm=[True, False]), shape='tomo')
    f(S + 'remove_all_stripe', dict(tomo=T, snr=3, la_size=5, sm_size=3, dim=1, ncore=2, nchunk=None),
      dict(ncc, dim=[1, 2]), shape='tomo')
    f(S + 'remove_stripe_based_interpolation', dict(tomo=T, snr=3, size=3, drop_ratio=0.1, norm=True, ncore=2, nchunk=None),
      dict(ncc, norm=[True, False]), shape='tomo')
    f(S + 'stripes_detect3d', dict(tomo=T, size=2, radius=1, ncore=2), nc, shape='tomo', src=True,
      lim=dict(size=[-1, 0, NA // 2 + 1, NA, 3 * NA]))
    f(S + 'stripes_mask3d', dict(weights=Arr(NA, NS, NC, main=True), threshold=0.6, min_stripe_length=2, min_stripe_depth=1,
                                 min_stripe_width=2, sensitivity_perc=85.0, ncore=2), nc, shape='weights', src=True,
      lim=dict(min_stripe_length=[NA, NA + 1, 60], min_stripe_depth=[NS, NS + 1, 60], min_stripe_width=[NC, NC + 1, 60]))
    # ---- misc.corr
    C = 'misc.corr.'
    f(C + 'adjust_range', dict(arr=T, dmin=0.0, dmax=1.0), dict(dmin=[None, 0.0], dmax=[None, 1.0]), shape='arr', src=True)
    f(C + 'gaussian_filter', dict(arr=T, sigma=3, order=0, axis=0, ncore=2), dict(nc, **ax), bad=badax, shape='arr', src=True)
    f(C + 'median_filter', dict(arr=T, size=3, axis=0, ncore=2), dict(nc, **ax), bad=badax, shape='arr', src=True)
    f(C + 'median_filter_cuda', dict(arr=T, size=3, axis=0), ax, bad=badax, shape='arr', src=True)
    f(C + 'median_filter_nonfinite', dict(arr=T, size=3, callback=None), dict(), shape='arr', src=True, inplace=('arr',))
    f(C + 'median_filter3d', dict(arr=T, size=3, ncore=2), dict(nc, arr=[T, T.but(dt='uint16'), T.but(dt='int32')]),
      shape='arr', src=True)
    f(C + 'median_filter3d', dict(arr=T.but(dt='uint16'), size=3, ncore=2), dict(size=[5]), shape='arr', src=True)
    f(C + 'remove_outlier3d', dict(arr=T.but(dt='uint16'), dif=1, size=3, ncore=2), dict(size=[5]), shape='arr', src=True)
    f(C + 'remove_outlier3d', dict(arr=T, dif=0.5, size=3, ncore=2), dict(nc, arr=[T, T.but(dt='uint16')]), shape='arr', src=True)
    f(C + 'sobel_filter', dict(arr=T, axis=0, ncore=2), dict(nc, **ax), bad=badax, shape='arr', src=True)
    f(C + 'remove_nan', dict(arr=T, val=0.0, ncore=2), nc, shape='arr', src=True)
    f(C + 'remove_neg', dict(arr=T, val=0.0, ncore=2), nc, shape='arr', src=True)
    f(C + 'remove_outlier', dict(arr=T, dif=0.5, size=3, axis=0, ncore=2, out=None), dict(nc, **ax), bad=badax, shape='arr',
      src=True, out='out')
    f(C + 'remove_outlier1d', dict(arr=T, dif=0.5, size=3, axis=0, ncore=2, out=None), dict(nc, **ax), bad=badax, shape='arr',
      src=True, out='out')
    f(C + 'remove_outlier_cuda', dict(arr=T, dif=0.5, size=3, axis=0), ax, bad=badax, shape='arr', src=True)
    f(C + 'remove_ring', dict(rec=T, center_x=None, center_y=None, thresh=300.0, thresh_max=310.0, thresh_min=-100.0,
                              theta_min=30, rwidth=3, int_mode='WRAP', ncore=2, nchunk=None, out=None),
      dict(ncc, int_mode=['WRAP', 'REFLECT', 'wrap'], center_x=[None, 2.5], center_y=[None, 1.5]),
      bad=dict(int_mode=['nosuch', 'constant']), shape='rec', src=True, out='out',
      lim=dict(center_x=[-4.0, -0.5, NC - 0.5, 50.0], center_y=[-4.0, -0.5, NS - 0.5, 50.0], rwidth=[-1, -40],
               theta_min=[-30, 180, 400]))
    f(C + 'circ_mask', dict(arr=T, axis=0, ratio=1, val=0.0, ncore=2),
      dict(nc, axis=[0, 1, 2], val=[0.0, -1.0]), bad=dict(axis=[3, 7]), shape='arr', src=True)
    f(C + 'enhance_projs_aps_1id', dict(imgstack=T, median_ks=5, ncore=2), dict(ncore=[2, 1, None]), shape='imgstack')
    f(C + 'inpainter_morph', dict(arr=T, mask=Arr(NA, NS, NC, dt='bool'), size=5, iterations=2, inpainting_type='random',
                                  axis=None, ncore=2),
      dict(nc, axis=[None, 0, 1, 2], inpainting_type=['random', 'mean', 'median']),
      bad=dict(inpainting_type=['nosuch'], axis=[3, 7, -1, -2]), shape='arr', src=True, noise=True, lim=dict(size=[0, -1]))
    # ---- misc.morph
    H = 'misc.morph.'
    f(H + 'pad', dict(arr=T, axis=2, npad=2, mode='constant', ncore=2),
      dict(nc, axis=[0, 1, 2], npad=[None, 2, 1], mode=['constant', 'edge']), bad=dict(mode=['nosuch', 'wrap'], axis=[3, 5]))
    f(H + 'pad', dict(arr=T.but(dt='int16'), axis=2, npad=2, mode='constant', constant_values=1, ncore=2),
      dict(axis=[0, 1, 2]), dead=('ncore',))
    f(H + 'pad', dict(arr=T.but(dt='int16'), axis=2, npad=2, mode='edge', ncore=2), dict(axis=[0, 1, 2]), dead=('ncore',))
    f(H + 'pad', dict(arr=T, axis=1, npad=0, mode='edge', ncore=2), dict(mode=['constant', 'edge']), shape='arr', src=True,
      skip=('C16',))
    f(H + 'downsample', dict(arr=Arr(4, 6, 8, main=True), level=1, axis=2), ax, bad=dict(axis=[3, 4]))
    f(H + 'upsample', dict(arr=T, level=1, axis=2), ax, bad=dict(axis=[3, 4]))
    f(H + 'trim_sinogram', dict(data=T, center=3.0, x=1.0, y=1.0, diameter=3), dict())
    f(H + 'sino_360_to_180', dict(data=Arr(6, NS, NC, main=True), overlap=3, rotation='left'),
      dict(overlap=[0, 1, 2, 3], rotation=['left', 'right']), bad=dict(rotation=['nosuch', 'up']))
    f(H + 'sino_360_to_180', dict(data=T, overlap=2, rotation='right'), dict(overlap=[0, 1, 2, 3]))
    # ---- misc.npmath
    f('misc.npmath.discrete_cdf', dict(data=Arr(9), steps=4), dict(steps=[None, 4]))
    f('misc.npmath.calc_affine_transform', dict(pts_source=Arr(4, 2), pts_target=Arr(4, 2)))
    # ---- misc.phantom
    PH = 'misc.phantom.'
    for n in ('baboon', 'barbara', 'cameraman', 'checkerboard', 'lena', 'peppers', 'shepp2d'):
        f(PH + n, dict(size=8, dtype='float32'), dict(size=[8, (6, 4)], dtype=['float32', 'float64', 'uint8']), files=True)
    f(PH + 'shepp3d', dict(size=5, dtype='float32'), dict(size=[5, (4, 5, 6)], dtype=['float32', 'float64']))
    f(PH + 'phantom', dict(size=(4, 5, 6), params=[dict(A=1.0, a=0.5, b=0.6, c=0.7, x0=0.1, y0=0.2, z0=0.3, phi=10.0, theta=0.0,
                                                        psi=0.0)], dtype='float32'), dict(dtype=['float32', 'float64']))
    # ---- prep.alignment
    G = 'prep.alignment.'
    al = dict(prj=T, ang=TH, fdir='.', iters=1, pad=(0, 0), blur=True, center=None, algorithm='sirt', upsample_factor=10,
              rin=0.5, rout=0.8, save=False, debug=True)
    for n in ('align_seq', 'align_joint'):
        f(G + n, dict(al), dict(blur=[True, False], save=[False, True], pad=[(0, 0), (2, 3)], debug=[True, False],
                                center=[None, 3.0], iters=[1, 2]), files=True)
    f(G + 'tilt', dict(obj=T, rad=0, phi=0), dict())
    f(G + 'add_jitter', dict(prj=T, low=0, high=1), noise=True, shape='prj')
    f(G + 'add_noise', dict(prj=T, ratio=0.05), noise=True, shape='prj', src=True)
    f(G + 'scale', dict(prj=T))
    f(G + 'blur_edges', dict(prj=T, low=0, high=0.8), shape='prj', src=True)
    f(G + 'shift_images', dict(prj=T, sx=Arr(NA), sy=Arr(NA)), shape='prj')
    f(G + 'find_slits_corners_aps_1id', dict(img=Arr(60, 50), method='quadrant+', medfilt2_kernel_size=3, medfilt_kernel_size=5),
      dict(method=['simple', 'quadrant', 'quadrant+'], img=[Arr(60, 50), Arr(50, 60)]), bad=dict(method=['nosuch']))
    f(G + 'calc_slit_box_aps_1id', dict(slit_box_corners=Arr(4, 2), inclip=(1, 10, 1, 10)))
    f(G + 'remove_slits_aps_1id', dict(imgstacks=T, slit_box_corners=Arr(4, 2), inclip=(1, 10, 1, 10)))
    f(G + 'detector_drift_adjust_aps_1id', dict(imgstacks=Arr(3, 60, 50, main=True), slit_cnr_ref=Arr(4, 2), medfilt2_kernel_size=3,
                                                medfilt_kernel_size=3, ncore=2), dict(ncore=[2, 1, None]))
    f(G + 'load_distortion_coefs', dict(file_path='coefs.txt'), files=True)
    f(G + 'distortion_correction_proj', dict(tomo=T, xcenter=2.0, ycenter=1.0, list_fact=[1.0, 0.5, 0.1], ncore=2, nchunk=None),
      ncc, shape='tomo')
    f(G + 'distortion_correction_sino', dict(tomo=T, ind=1, xcenter=2.0, ycenter=1.0, list_fact=[1.0, 0.5]))
    # ---- sim
    J = 'sim.project.'
    f(J + 'add_drift', dict(tomo=T, amp=0.2, period=50, mean=1), shape='tomo', src=True)
    f(J + 'add_gaussian', dict(tomo=T, mean=0.0, std=0.5), dict(std=[0.5, None]), noise=True, shape='tomo', src=True)
    f(J + 'add_poisson', dict(tomo=T), noise=True, shape='tomo')
    f(J + 'add_rings', dict(tomo=T, std=0.05), noise=True, shape='tomo', src=True)
    f(J + 'add_salt_pepper', dict(tomo=T, prob=0.01, val=1.0), dict(val=[1.0, None]), noise=True, shape='tomo', src=True)
    f(J + 'add_zingers', dict(tomo=T, f=0.01, sat=2 ** 16), noise=True, shape='tomo', src=True)
    f(J + 'angles', dict(nang=5, ang1=0.0, ang2=180.0))
    pv = dict(ncc, center=[None, 3.0, Arr(NS)], emission=[True, False], pad=[True, False], sinogram_order=[True, False])
    O = Arr(NS, 6, 4, main=True)
    f(J + 'project', dict(obj=O, theta=TH, center=None, emission=True, pad=True, sinogram_order=False, ncore=2, nchunk=None), pv)
    pv = dict(pv, axis=[0, 1, 2])
    Q = Arr(NS, NS, NS, main=True)
    Q2 = Arr(NS, NS, NS)
    f(J + 'project2', dict(objx=Q, objy=Q2, theta=TH, center=None, emission=True, pad=True, sinogram_order=False, axis=0,
                           ncore=2, nchunk=None), pv)
    f(J + 'project3', dict(objx=Q, objy=Q2, objz=Q2, theta=TH, center=None, emission=True, pad=True, sinogram_order=False,
                           axis=0, ncore=2, nchunk=None), pv)
    f(J + 'add_focal_spot_blur', dict(tomo=T, spotsize=0.5), shape='tomo')
    W = 'sim.propagate.'
    f(W + 'propagate_tie', dict(mu=Arr(4, 6, 8), delta=Arr(4, 6, 8), pixel_size=1e-4, dist=5.0))
    f(W + 'probe_gauss', dict(nx=5, ny=4, fwhm=2.0, center=(1.0, 2.0), max_int=1), dict(fwhm=[2.0, None],
                                                                                     center=[(1.0, 2.0), None]))
    f(W + 'calc_intensity', dict(probe=Arr(3, 3, dt='complex64'), proj=Arr(6, 5), shift_x=1, shift_y=1, mode='near'),
      dict(mode=['near', 'far'], shift_x=[1, None], shift_y=[1, None]), bad=dict(mode=['nosuch']))
    # ---- recon
    R = 'recon.algorithm.recon'
    for a in ALGS:
        b = dict(tomo=T, theta=TH, center=None, sinogram_order=False, algorithm=a, init_recon=None, ncore=2, nchunk=None)
        v = dict(center=[None, 3.0, Arr(NS)], sinogram_order=[True], init_recon=[None, Arr(NS, NC, NC)], **ncc)
        b2 = dict(b)
        for o in AOPT[a]:
            b2[o] = OPTS[o]
            if o in ('num_gridx', 'num_gridy') and a == 'tikh':
                b2[o] = NC
        if a == 'gridrec':
            b2['num_gridx'] = b2['num_gridy'] = 6
        f(R, b2, dict(v, init_recon=[None, Arr(NS, b2['num_gridx'], b2['num_gridy'])]), bad=dict(algorithm=['nosuch', 'ART']),
          inplace=('init_recon',))
        t[-1].alg = a
        t[-1].defaults = b
        if 'num_block' in AOPT[a]:
            t[-1].lim = dict(num_block=[0, -1])
    for a in sorted(ACC):
        b = dict(tomo=T, theta=TH, center=None, sinogram_order=False, algorithm=a, init_recon=None, ncore=2, nchunk=None,
                 accelerated=True)
        b2 = dict(b, num_gridx=6, num_gridy=4, num_iter=2, pool_size=3, interpolation='linear', device='cpu',
                  grid_size=[4, 5, 6], block_size=[7, 8, 9])
        f(R, b2, dict(center=[None, 3.0, Arr(NS)], sinogram_order=[True], init_recon=[None, Arr(NS, 6, 4)], **ncc),
          inplace=('init_recon',))
        t[-1].alg = 'accel-' + a
        t[-1].defaults = b
    # reconstruction by optional external packages
    for a, o in (('astra', dict(options={'method': 'SART', 'num_iter': 2})),
                 ('astra', dict(options={'method': 'SIRT_CUDA', 'proj_type': 'cuda', 'gpu_list': [0, 1]})),
                 ('ufo_fbp', {}), ('ufo_dfi', {}),
                 ('lprec', dict(lpmethod='fbp', gpu_list=[0, 1])), ('lprec', dict(lpmethod='cg', num_iter=2))):
        f(R, dict(tomo=T, theta=TH, center=None, sinogram_order=False, algorithm=Ref('recon.wrappers.' + a), init_recon=None,
                  ncore=2, nchunk=None, **o), dict(center=[None, 3.0, Arr(NS)], sinogram_order=[True], **ncc),
          inplace=('init_recon',))
        t[-1].alg = 'wrap-' + a
    f('recon.algorithm.init_tomo', dict(tomo=T, sinogram_order=False, sharedmem=True),
      dict(sinogram_order=[True, False], sharedmem=[True, False]))
    f('recon.vector.vector', dict(tomo=T, theta=TH, center=None, num_iter=1), dict(center=[None, 3.0, Arr(NS)]))
    V = Arr(NS, NS, NS, main=True)
    V2 = Arr(NS, NS, NS)
    f('recon.vector.vector2', dict(tomo1=V, tomo2=V2, theta1=Arr(NS), theta2=Arr(NS), center1=None, center2=None, num_iter=1,
                                   axis1=1, axis2=2), dict(center1=[None, 1.0, Arr(NS)], center2=[None, 1.0, Arr(NS)]))
    f('recon.vector.vector3', dict(tomo1=V, tomo2=V2, tomo3=V2, theta1=Arr(NS), theta2=Arr(NS), theta3=Arr(NS), center1=None,
                                   center2=None, center3=None, num_iter=1, axis1=0, axis2=1, axis3=2),
      dict(center1=[None, 1.0, Arr(NS)], center2=[None, 1.0, Arr(NS)], center3=[None, 1.0, Arr(NS)]))
    X = 'recon.rotation.'
    f(X + 'find_center', dict(tomo=T, theta=TH, ind=1, init=3.0, tol=0.5, mask=True, ratio=1.0, sinogram_order=False),
      dict(ind=[1, None], init=[3.0, None], mask=[True, False], sinogram_order=[True, False]))
    f(X + 'find_center_vo', dict(tomo=Arr(20, NS, 40, main=True), ind=1, smin=-5, smax=5, srad=3, step=0.5, ratio=0.5, drop=2,
                                 ncore=2), dict(ind=[1, None], ncore=[2, 1, None]))
    f(X + 'find_center_pc', dict(proj1=Arr(6, NC, main=True), proj2=Arr(6, NC), tol=0.5, rotc_guess=None),
      dict(rotc_guess=[None, 3.5]))
    f(X + 'write_center', dict(tomo=T, theta=TH, dpath='tmp/center', cen_range=(2, 4, 1), ind=1, mask=False, ratio=1.0,
                               sinogram_order=False, algorithm='gridrec', filter_name='parzen'),
      dict(cen_range=[None, (2, 4, 1)], ind=[None, 1], mask=[True, False], sinogram_order=[True, False]), files=True)
    f(X + 'mask_empty_slice', dict(tomo=T, threshold=0.25))
    return t
