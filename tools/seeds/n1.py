CSH = '''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -g -O1 -w -DNDEBUG -Iinclude -Isource/libtomo/recon %(flags)s "$D/demo.c" %(src)s -o "$T/demo" -lm || exit 3
timeout 200 "$T/demo"
'''
DIRTY = r"""
#pragma once
#include <stdlib.h>
#include <string.h>
extern int pat;
static inline void* dirty_malloc(size_t n) { void* p = malloc(n); if(p) memset(p, pat, n); return p; }
#define malloc(n) dirty_malloc(n)
"""
SEEDS = [
dict(id='S01-bart-remainder', prop='C11',
 edits=[('source/libtomo/recon/bart.c', '''    const int remainder = dt % num_block;
''', '''    const int remainder = (dt % num_block) ? 1 : 0;
''')],
 needs='bart with num_block such that the number of projections modulo num_block is at least 2: the last projections are in no subset',
 breaks='ordered subsets no longer contain every projection exactly once',
 demo='''
import sys
import numpy as np, tomopy
rng = np.random.default_rng(0)
t = rng.random((11, 1, 12)).astype('f4') + 1
th = tomopy.angles(11)
kw = dict(algorithm='bart', num_iter=2, ncore=1)
bad = []
for nb in (1, 2, 3, 5):
    a = tomopy.recon(t, th, num_block=nb, **kw)
    for p in range(11):
        u = t.copy(); u[p] *= 1.5
        if np.array_equal(tomopy.recon(u, th, num_block=nb, **kw), a):
            bad.append((nb, p))
print(bad)
sys.exit(1 if bad else 0)
'''),
dict(id='S02-bart-uncleared', prop='C05',
 edits=[('source/libtomo/recon/bart.c', '''                memset(sum_dist, 0, (ngridx * ngridy) * sizeof(float));
''', '''                memset(sum_dist, 0, (ngridx * ngridx) * sizeof(float));
''')],
 needs='a grid with more rows in y than in x, and a heap that is not fresh',
 breaks='the part of the accumulation buffer past ngridx*ngridx is never cleared',
 sh=CSH % dict(src='source/libtomo/recon/bart.c source/libtomo/recon/utils.c', flags='-include $D/dirty.h'),
 files={'dirty.h': DIRTY, 'demo.c': r"""
#include "dirty.h"
#include "libtomo/recon.h"
int pat;
static void run(int p, float* out)
{
    enum { dy = 2, dt = 9, dx = 12, nx = 8, ny = 16 };
    float data[dy * dt * dx], c[dy], th[dt];
    int   ib[dt];
    for(int i = 0; i < dy * dt * dx; i++) data[i] = (i * 37 % 101) / 101.0f;
    for(int i = 0; i < dt; i++) { th[i] = i * 3.14159f / dt; ib[i] = i; }
    for(int i = 0; i < dy; i++) c[i] = dx / 2.0f;
    for(int i = 0; i < dy * nx * ny; i++) out[i] = 0.1f;
    pat = p;
    bart(data, dy, dt, dx, c, th, out, nx, ny, 3, 1, ib);
}
int main(void)
{
    static float a[2 * 8 * 16], b[2 * 8 * 16];
    run(0, a);
    run(0x3f, b);
    return memcmp(a, b, sizeof(a)) != 0;
}
"""},
 demo=''''''),
dict(id='S03-grad-center', prop='C09',
 edits=[('source/libtomo/recon/tv.c', 'preprocessing(ngridx, ngridy, dx, center[s], &mov,', 'preprocessing(ngridx, ngridy, dx, center[s - s % 2], &mov,')],
 needs='at least two slices in one group with different centers',
 breaks='every second slice is reconstructed with its predecessor\'s rotation center',
 demo='''
import sys
import numpy as np, tomopy
t = np.random.default_rng(0).random((9, 4, 12)).astype('f4')
c = np.array([5.0, 6.5, 5.5, 7.0], 'f4')
kw = dict(algorithm='tv', num_iter=2, ncore=1)
a = tomopy.recon(t, tomopy.angles(9), center=c, **kw)
bad = [i for i in range(4) if not np.array_equal(tomopy.recon(t[:, i:i+1], tomopy.angles(9), center=c[i:i+1], **kw)[0], a[i])]
print(bad)
sys.exit(1 if bad else 0)
'''),
]
