"""The jobs (harness + bounds) of every property. check.py runs them; nothing here depends on a particular tree."""
import os
class _J: pass
class Job:
    """quick/thorough: parameters of the harness (None: the job is not part of that tier)."""
    def __init__(s, name, harness, quick, thorough='same', flags='', native='', reach=(), bounds='', cap=2_000_000, tcap=None, deadline=240, tdeadline=3600, engine=(), reblock=(), also=(), fallback=None):
        s.fallback = fallback # (parameters, bounds): for code that takes symbolic data out of the arithmetic the engine can keep symbolic
        s.name, s.harness, s.q, s.t, s.flags, s.native, s.reach, s.bounds, s.cap, s.tcap, s.deadline, s.tdeadline, s.engine, s.reblock, s.also = name, harness, quick, thorough, flags, native, list(reach), bounds, cap, tcap or cap * 10, deadline, tdeadline, list(engine), list(reblock), list(also)
    def at(s, tier):
        p = s.q if tier == 'quick' else (s.q if s.t == 'same' else s.t)
        if p is None: return None
        j = _J(); j.name, j.harness, j.flags, j.native, j.params, j.reach, j.bounds, j.engine, j.reblock, j.also = s.name, s.harness, s.flags.split(), s.native.split(), dict(p), s.reach, s.bounds, s.engine, s.reblock, s.also
        j.fallback, j.fallback_bounds = (dict(s.fallback[0]), s.fallback[1]) if s.fallback else (None, '')
        j.deadline, j.cap = (s.deadline, s.cap) if tier == 'quick' else (s.tdeadline, s.tcap)
        return j
class Prop:
    def __init__(s, jobs, assumptions=()): s.jobs, s.assumptions = jobs, list(assumptions)

COMMON_ASSUMPTIONS = [
    'Claims are bounded: only inputs, sizes, thread counts and schedules within the bounds recorded per job are covered.',
    'Matrix elements are multiples of 1/4: of magnitude at most 2^40 where they are only moved or printed; in products at most 2^23 in the even columns of A and in the odd rows and columns of B and at most 2^16 elsewhere (random numbers: multiples of 2^-8 or 2^-25), so that all sums are exact and floating-point addition and multiplication are the exact ring operations; rounding behaviour is outside the claim. The engine checks that no intermediate value can exceed 2^53.',
    'The code is encoded from the LLVM IR clang 18 produces at -O1 for x86-64; a miscompilation by another compiler is outside the claim. Sample paths and every counterexample are executed natively.',
    'HPX, Vc, iostream, Boost.Program_options, OpenMP and <random> are replaced by the small stand-ins in /verif/stubs; their contracts are listed in DESIGN.md.']
OMP = 'OpenMP regions are executed with the stated numbers of threads under static scheduling, one thread after the other, with every access checked for data races by vector clocks; a race-free region has the same result under every interleaving.'
HPX = 'Tasks run under an eager, a first-in-first-out and a last-in-first-out scheduler, with every access checked for data races by vector clocks over the fork/join order; tasks without races have the same result under every interleaving.'

SIZES = 'N the IMIN-th to IMAX-th of 8 9 10 12 15 16 17 20 24 31 32 33 40 48 50 63 64 65 96 100 127 128 129 130 255 256 257 258'
COMP = ['variants/components/multiplier.cpp', 'variants/components/recursive.cpp'] # linked with the harness
PROPS = {}
def prop(pid, jobs, assumptions=()): PROPS[pid] = Prop(jobs, assumptions)

prop('C01', [
    Job('naive', 'c01_naive', dict(NMAX=9, TMAX=3), dict(NMAX=14, TMAX=5), '-fopenmp', reach=(0, 1), bounds='N <= NMAX, 1..TMAX threads, both layouts of B, all elements arbitrary'),
    Job('naive_mid', 'c01_naive', dict(NMIN=10, NMAX=40, TMIN=3, TMAX=3), dict(NMIN=10, NMAX=48, TMIN=1, TMAX=4), '-fopenmp', reach=(0, 1), bounds='N = NMIN..NMAX, TMIN..TMAX threads, both layouts of B, all elements arbitrary', cap=400_000_000),
    Job('naive_large', 'c01_naive', dict(IMIN=13, IMAX=17, TMIN=2, TMAX=3), dict(IMIN=13, IMAX=17, TMIN=1, TMAX=4), '-fopenmp', reach=(0, 1), bounds=SIZES + ', TMIN..TMAX threads, both layouts of B, all elements arbitrary', cap=400_000_000),
    Job('naive_wide', 'c01_naive', dict(IMIN=18, IMAX=27, EVERY=1009, TMIN=2, TMAX=2), dict(IMIN=18, IMAX=27, EVERY=211, TMIN=1, TMAX=3), '-fopenmp', reach=(0, 1), bounds=SIZES + ', TMIN..TMAX threads, both layouts of B, every EVERY-th element of A and B arbitrary, the others fixed and varied', cap=2_000_000_000),
    Job('naive_threads', 'c01_naive', dict(NMIN=1, NMAX=9, TMIN=4, TMAX=8), dict(NMIN=1, NMAX=20, TMIN=4, TMAX=16), '-fopenmp', reach=(0, 1), bounds='N = NMIN..NMAX, TMIN..TMAX threads, both layouts of B, all elements arbitrary')], [OMP])
prop('C02', [
    Job('kernels', 'c02_kernel', dict(NMAX=5), dict(NMAX=8), also=COMP[:1], reach=(0, 1, 2, 3, 4), bounds='N <= NMAX, every block position and block size, every input block size up to NMAX+1 (blocked kernel: b a multiple of 4, N a multiple of the input block)'),
    Job('kernels_large', 'c02_kernel', dict(IMIN=0, IMAX=6, BMAX=16, ALLB=10), dict(IMIN=0, IMAX=11, BMAX=32, ALLB=17), also=COMP[:1], reach=(0, 1, 2, 3, 4), bounds=SIZES + ', block sizes up to BMAX that are multiples of 4 (plain kernels: or of 5, for N <= ALLB any), blocks in the corners, at the borders and in the middle, every input block size dividing N', cap=100_000_000),
    Job('kernels_wide', 'c02_kernel', dict(IMIN=24, IMAX=27, BMIN=8, BMAX=8, EVERY=4001), dict(IMIN=24, IMAX=27, BMIN=4, BMAX=16, EVERY=1009), also=COMP[:1], reach=(0, 1, 2, 3, 4), bounds=SIZES + ', as kernels_large with every EVERY-th element of A and B arbitrary, the others fixed and varied', cap=400_000_000),
])
prop('C03', [
    Job('single', 'c03_single', dict(NMAX=6), dict(NMAX=9, BMAX=10), also=['variants/single.cpp', *COMP], reach=(0, 1), bounds='N <= NMAX, block sizes 0..BMAX (8), repetitions 1..2, verbose 0..1, both layouts, three schedulers, either of two localities'),
    Job('single_large', 'c03_single', dict(IMIN=0, IMAX=8, BMAX=26, BRMIN=1, REPMAX=1, VMAX=0, PMIN=2, LOC=1), dict(IMIN=0, IMAX=11, BMAX=36, REPMAX=1, VMAX=0, LOC=1), also=['variants/single.cpp', *COMP], reach=(0, 1, 102), bounds=SIZES + ', block sizes up to BMAX, both layouts, last-in-first-out scheduler, all elements arbitrary', cap=100_000_000)], [HPX])
prop('C04', [
    Job('schedule', 'c04_schedule', dict(NMAX=16, LMAX=4), dict(NMAX=40, LMAX=6, WMAX=45, DMAX=1700), also=['variants/static_improved.cpp', *COMP], reach=(0, 101, 102, 103), bounds='N <= NMAX, 1..LMAX localities, minimum work size 0..WMAX (20), work difference 0..DMAX (300), relative difference any multiple of 2^-6 in [-4,4]'),
    Job('schedule_large', 'c04_schedule', dict(IMIN=5, IMAX=16, LMAX=6, WMAX=70, DMAX=4200), dict(IMIN=5, IMAX=21, LMAX=9, WMAX=140, DMAX=17000), also=['variants/static_improved.cpp', *COMP], reach=(0, 101, 102, 103), bounds=SIZES + ', otherwise as schedule', cap=100_000_000)])
prop('C05', [
    Job('pseudodynamic', 'c05_pseudodynamic', dict(NMAX=4), dict(NMAX=6, BMAX=7, WMAX=7, DMAX=40, LMAX=4), also=['variants/pseudodynamic.cpp', 'variants/static_improved.cpp', *COMP], reach=(0, 1, 11, 12, 13), bounds='N <= NMAX, 1..LMAX (3) localities, every root, block sizes 0..BMAX (5), work sizes 0..WMAX (5), differences 0..DMAX (20), repetitions 1..2, both layouts, three schedulers', cap=20_000_000),
    Job('pseudodynamic_large', 'c05_pseudodynamic', dict(IMIN=0, IMAX=3, BMAX=4, BRMIN=3, WMAX=8, DMAX=150, LMAX=4, REPMAX=1, VMAX=0, PMIN=2), dict(IMIN=0, IMAX=8, BMAX=13, WMAX=12, DMAX=600, LMAX=5, REPMAX=1, VMAX=0), also=['variants/pseudodynamic.cpp', 'variants/static_improved.cpp', *COMP], reach=(0, 1, 11, 12, 13, 14), bounds=SIZES + ', 1..LMAX localities, every root, result blocks BRMIN..BMAX, input blocks 0..BMAX, work sizes 0..WMAX, differences 0..DMAX, both layouts, last-in-first-out scheduler, all elements arbitrary', cap=100_000_000)], [HPX])
for pid, h, n in (('C06', 'c06_algorithms', 'algorithms'), ('C07', 'c07_looped', 'looped'), ('C08', 'c08_semi', 'semi')):
    prop(pid, [Job(n, h, dict(NMAX=7, BMAX=7), dict(NMAX=11, BMAX=12), reach=(0, 1, 2), bounds='N <= NMAX, both block sizes 1..BMAX, three schedulers, B transposed, all elements arbitrary', cap=10_000_000),
        Job(n + '_large', h, dict(IMIN=0, IMAX=8, BTAB=1, PMIN=2), dict(IMIN=0, IMAX=14, BTAB=1), reach=(0, 1, 2), bounds=SIZES + ', block sizes 1 3 4 8 15 16 N N+1, last-in-first-out scheduler, B transposed, all elements arbitrary', cap=200_000_000)], [HPX])
SMALL = '-DMMHPX_VERIF_BLOCKING -DL3_X=10 -DL3_Y=16 -DL3_K_STEP=4 -DL2_X=5 -DL2_Y=8 -DL2_K_STEP=2 -DL1_X=5 -DL1_Y=8 -DL1_K_STEP=2 -DX_REG=5 -DY_REG=8'
SMALL2 = '-DMMHPX_VERIF_BLOCKING -DL3_X=20 -DL3_Y=16 -DL3_K_STEP=6 -DL2_X=10 -DL2_Y=16 -DL2_K_STEP=6 -DL1_X=5 -DL1_Y=8 -DL1_K_STEP=3 -DX_REG=5 -DY_REG=8'
sb = 'block sizes {} supplied through the hook, N in NMIN..NMAX, all elements arbitrary, repetitions 1..REPMAX (2)'
real = 'the block sizes of the source; N as given; {}'
def blocked(pid, h, n, extra, small, small2, real_q, pmax, assumptions, kwreal):
    prop(pid, [
        Job(n + '_small', h, dict(NMIN=0, NMAX=6, **pmax), dict(NMIN=0, NMAX=12, **pmax), f'{extra} {small}', reach=(0, 1), bounds=sb.format('10/5/5 x 16/8/8 x 4/2/2'), cap=20_000_000),
        Job(n + '_multi', h, dict(NMIN=15, NMAX=22, REPMAX=1, **pmax), dict(NMIN=13, NMAX=36, REPMAX=2, **pmax), f'{extra} {small}', reach=(0,), bounds=sb.format('10/5/5 x 16/8/8 x 4/2/2'), cap=50_000_000),
        Job(n + '_multi2', h, dict(NMIN=19, NMAX=22, REPMAX=1, **pmax), dict(NMIN=17, NMAX=42, REPMAX=2, **pmax), f'{extra} {small2}', reach=(0,), bounds=sb.format('20/10/5 x 16/16/8 x 6/6/3'), cap=50_000_000),
        *real_q], assumptions)
blocked('C09', 'c09_combined', 'combined', '-mavx2', SMALL, SMALL2, [
    Job('combined_real', 'c09_combined', dict(N=2, PMAX=1, REPMAX=2), dict(N=3, PMAX=2, REPMAX=2), '-mavx2', reach=(0, 1), bounds=real.format('all elements arbitrary'), cap=4_000_000_000),
    Job('combined_real_multi', 'c09_combined', dict(N=257, EVERY=4001, REPMAX=1), dict(N=421, EVERY=10007, REPMAX=1), '-mavx2', reach=(0,), bounds=real.format('every EVERY-th element of A and B arbitrary, the others fixed, pairwise varied integers'), cap=8_000_000_000)],
    dict(PMAX=2), [HPX], {})
blocked('C10', 'c10_tiled', 'tiled', '-fopenmp -mavx2', SMALL + ' -DK_REG=1', SMALL2 + ' -DK_REG=1', [
    Job('tiled_real', 'c10_tiled', dict(N=2, VMAX=0), dict(N=3), '-fopenmp -mavx2', reach=(0, 1), bounds=real.format('all elements arbitrary, 1..2 threads'), cap=4_000_000_000),
    Job('tiled_real_multi', 'c10_tiled', dict(N=257, EVERY=4001, REPMAX=1, TMIN=2, VMAX=0), dict(N=421, EVERY=10007, REPMAX=1, TMIN=2, VMAX=0), '-fopenmp -mavx2', reach=(0,), bounds=real.format('every EVERY-th element of A and B arbitrary, the others fixed, pairwise varied integers; two threads'), cap=8_000_000_000)],
    dict(TMAX=3), [OMP, 'B row-major (the transposed parameter is ignored by this kernel)'], {})
KT = 'reference_kernels/kernel_test.cpp'
TS1 = [KT, *'PADDING=8 L3_X=8 L3_Y=16 L3_K_STEP=16 L2_X=8 L2_Y=8 L2_K_STEP=4 L1_X=4 L1_Y=8 L1_K_STEP=2'.split()]
TS2 = [KT, *'PADDING=16 L3_X=10 L3_Y=8 L3_K_STEP=40 L2_X=10 L2_Y=8 L2_K_STEP=8 L1_X=5 L1_Y=8 L1_K_STEP=4'.split()]
tb = 'block sizes {} substituted in a copy of the source, N in NMIN..NMAX with blocks that fit into the padded matrices and rows that keep the alignment, all elements arbitrary, repetitions 1..REPMAX (2), 1..3 threads'
prop('C11', [
    Job('test_small', 'c11_test', dict(NMIN=0, NMAX=16, TMAX=3, FIT=1, PADDING=8, BX=8, BY=16, BK=16), dict(NMIN=0, NMAX=32, TMAX=3, FIT=1, PADDING=8, BX=8, BY=16, BK=16), '-fopenmp -mavx2', reach=(0, 1), bounds=tb.format('8/8/4 x 16/8/8 x 16/4/2, padding 8'), cap=50_000_000, reblock=TS1),
    Job('test_small2', 'c11_test', dict(NMIN=24, NMAX=40, REPMAX=1, TMAX=2, FIT=1, PADDING=16, BX=10, BY=8, BK=40), dict(NMIN=24, NMAX=80, REPMAX=1, TMAX=3, FIT=1, PADDING=16, BX=10, BY=8, BK=40), '-fopenmp -mavx2', reach=(0,), bounds=tb.format('10/10/5 x 8/8/8 x 40/8/4, padding 16'), cap=100_000_000, reblock=TS2),
    Job('test_real', 'c11_test', dict(N=452, EVERY=40009, REPMAX=1, VMAX=0, TMIN=2), dict(N=512, EVERY=20011, REPMAX=1, VMAX=0), '-fopenmp -mavx2', reach=(0,), bounds=real.format('every EVERY-th element of A and B arbitrary, the others fixed, pairwise varied integers; two threads'), cap=20_000_000_000, deadline=600),
    Job('test_unfit', 'c11_test', dict(N=4, VMAX=0, REPMAX=1, TMIN=2), dict(NMIN=1, NMAX=448, VMAX=0, REPMAX=1, TMIN=2, ROWS=4), '-fopenmp -mavx2', bounds=real.format('sizes that are multiples of 4 whose last block does not fit into the padded matrices, two threads'), cap=4_000_000_000),
    Job('test_unaligned', 'c11_test', dict(N=450, VMAX=0, REPMAX=1, TMIN=2), dict(NMIN=1, NMAX=512, VMAX=0, REPMAX=1, TMIN=2, ROWS=1), '-fopenmp -mavx2', bounds=real.format('sizes that are no multiples of 4, two threads'), cap=4_000_000_000)],
    [OMP, 'B row-major (the transposed parameter is ignored by this kernel)'])
def dims(base, ds): return [*ds, *(base + d for d in ds)]
prop('C12', [Job('make_tiled', 'c12_make_tiled', dict(DIM=3), dict(DIM=4, TMAX=3, CMAX=4, EMAX=256), reach=(1, 2, 3, 11, 12, 13, 20), bounds='1..DIM dimensions, tile extents 1..TMAX (3), 0..CMAX (3) tiles per direction, at most EMAX (64) elements, plain and aligned vectors; descriptions of up to DIM+2 wrong dimensions'),
    Job('make_tiled_large', 'c12_make_tiled', dict(DIM=3, LARGE=1, EVERY=4001), dict(DIM=4, LARGE=1, EVERY=401), reach=(1, 2, 3, 11, 12, 13), bounds='four larger layouts per dimension with up to 330000 elements, extents, tiles and numbers of tiles beyond 2^8; every EVERY-th element arbitrary, the others pairwise different', cap=2_000_000_000),
    Job('make_tiled_mid', 'c12_make_tiled', dict(DIM=2, TMAX=6, CMAX=5, EMAX=300, SIDES=1), dict(DIM=2, TMAX=9, CMAX=7, EMAX=1500, SIDES=1), reach=(1, 2, 11, 12), bounds='1..2 dimensions, tile extents 1..TMAX, 0..CMAX tiles per direction, at most EMAX elements, all elements arbitrary', cap=20_000_000),
    Job('make_tiled_deep', 'c12_make_tiled', dict(DIMMIN=4, DIM=6, DEEP=1), reach=(4, 5, 6, 14, 15, 16, 20), bounds='4..6 dimensions, eight layouts with tile extents and numbers of tiles 1..3, all elements arbitrary', cap=50_000_000)])
prop('C13', [Job('tile_view', 'c13_tile_view', dict(DIM=3), dict(DIM=4, TMAX=3, CMAX=3, EMAX=144, AMAX=15), reach=(1, 2, 3, 11, 12, 13, 20, 31, 32, 33, 41, 42, 43), bounds='1..DIM dimensions, tile extents 1..TMAX (3), 1..CMAX (3) tiles per direction, at most EMAX (64) elements, every tile; index arithmetic: extents 1..AMAX (7), all coordinates, and three layouts beyond 2^32 with all tiles and coordinates'),
    Job('tile_view_large', 'c13_tile_view', dict(DIM=3, LARGE=1, EVERY=4001), dict(DIM=4, LARGE=1, EVERY=401), reach=(1, 2, 3, 11, 12, 13, 20), bounds='four larger layouts per dimension with up to 330000 elements, extents, tiles and numbers of tiles beyond 2^8; every EVERY-th element arbitrary, the others pairwise different', cap=2_000_000_000),
    Job('tile_view_mid', 'c13_tile_view', dict(DIM=2, TMAX=6, CMAX=5, EMAX=300, SIDES=1), dict(DIM=2, TMAX=9, CMAX=7, EMAX=1500, SIDES=1), reach=(1, 2, 11, 12), bounds='1..2 dimensions, tile extents 1..TMAX, 0..CMAX tiles per direction, at most EMAX elements, all elements arbitrary', cap=20_000_000),
    Job('tile_view_deep', 'c13_tile_view', dict(DIMMIN=4, DIM=6, DEEP=1), reach=(4, 5, 6, 14, 15, 16, 20, 44, 45, 46), bounds='4..6 dimensions, eight layouts with tile extents and numbers of tiles 1..3, all elements arbitrary', cap=50_000_000)])
prop('C14', [Job('iterate_tiles', 'c14_iterate_tiles', dict(DIM=3), dict(DIM=4, EMAX=256, CMAX=4), reach=(1, 2, 3, 11, 12, 13), bounds='1..DIM dimensions, tile extents 1..TMAX (3), 0..CMAX (3) tiles per direction, at most EMAX (64) elements'),
    Job('iterate_tiles_large', 'c14_iterate_tiles', dict(DIM=3, LARGE=1, EVERY=4001), dict(DIM=4, LARGE=1, EVERY=401), reach=(1, 2, 3, 11, 12, 13), bounds='four larger layouts per dimension with up to 330000 elements, extents, tiles and numbers of tiles beyond 2^8; every EVERY-th element arbitrary, the others pairwise different', cap=2_000_000_000),
    Job('iterate_tiles_mid', 'c14_iterate_tiles', dict(DIM=2, TMAX=6, CMAX=5, EMAX=300, SIDES=1), dict(DIM=2, TMAX=9, CMAX=7, EMAX=1500, SIDES=1), reach=(1, 2, 11, 12), bounds='1..2 dimensions, tile extents 1..TMAX, 0..CMAX tiles per direction, at most EMAX elements, all elements arbitrary', cap=20_000_000),
    Job('iterate_tiles_deep', 'c14_iterate_tiles', dict(DIMMIN=4, DIM=6, DEEP=1), reach=(4, 5, 6, 14, 15, 16), bounds='4..6 dimensions, eight layouts with tile extents and numbers of tiles 1..3, all elements arbitrary', cap=50_000_000)])
prop('C15', [Job('undo', 'c15_undo', dict(DIM=3), dict(DIM=4, EMAX=256, CMAX=4), reach=(1, 2, 3, 11, 12, 13, 20), bounds='as for tiling'),
    Job('undo_large', 'c15_undo', dict(DIM=3, LARGE=1, EVERY=4001), dict(DIM=4, LARGE=1, EVERY=401), reach=(1, 2, 3, 11, 12, 13), bounds='four larger layouts per dimension with up to 330000 elements, extents, tiles and numbers of tiles beyond 2^8; every EVERY-th element arbitrary, the others pairwise different', cap=2_000_000_000),
    Job('undo_mid', 'c15_undo', dict(DIM=2, TMAX=6, CMAX=5, EMAX=300, SIDES=1), dict(DIM=2, TMAX=9, CMAX=7, EMAX=1500, SIDES=1), reach=(1, 2, 11, 12), bounds='1..2 dimensions, tile extents 1..TMAX, 0..CMAX tiles per direction, at most EMAX elements, all elements arbitrary', cap=20_000_000),
    Job('undo_deep', 'c15_undo', dict(DIMMIN=4, DIM=6, DEEP=1), reach=(4, 5, 6, 14, 15, 16, 20), bounds='4..6 dimensions, eight layouts with tile extents and numbers of tiles 1..3, all elements arbitrary', cap=50_000_000)])
prop('C16', [
    Job('nest2', 'c16_loop_nest', dict(SPAN=3, STEP=2, DIM=2), dict(SPAN=6, STEP=4, DIM=2), reach=(1, 2, 11, 12, 20, 21, 30), bounds='1..2 dimensions, arbitrary lower bounds, upper bound up to SPAN above or 1 below, steps 1..STEP; size_t, int, uint32_t and int64_t; arrays and std::array'),
    Job('nest3', 'c16_loop_nest', dict(SPAN=2, STEP=2, DIM=3, TYPES=0), dict(SPAN=3, STEP=2, DIM=4, TYPES=1), reach=(3, 13, 20, 30), bounds='as nest2 with up to DIM dimensions'),
    Job('nest_wide', 'c16_loop_nest', dict(DIM=2, WIDE=1), dict(DIM=3, WIDE=1, TYPES=1), reach=(1, 2, 11, 12, 20, 21, 30), bounds='1..DIM dimensions, three combinations of lower bounds, any step s up to 1/32 of the range of the type, extents of 0..2 steps plus 0, 1 or s-1'),
    Job('nest_long', 'c16_loop_nest', dict(DIM=1, LONG=1, SPAN=40, STEP=5), dict(DIM=1, LONG=1, SPAN=130, STEP=9), reach=(1, 11, 20, 21, 30), bounds='one dimension, four fixed lower bounds (one per type), extents 0..SPAN, steps 1..STEP'),
    Job('nest_long2', 'c16_loop_nest', dict(DIMMIN=2, DIM=2, LONG=1, SPAN=9, STEP=3, TYPES=1), dict(DIMMIN=2, DIM=2, LONG=1, SPAN=18, STEP=4, TYPES=1), reach=(2, 12, 20, 21, 30), bounds='as nest_long in two dimensions, size_t and int', cap=5_000_000),
    Job('nest_deep', 'c16_loop_nest', dict(DIMMIN=4, DIM=6, DEEP=1), reach=(4, 5, 6, 14, 15, 16, 20, 21), bounds='4..6 dimensions, arbitrary lower bounds, three combinations of extents 1..3 and steps 1..2', cap=20_000_000)])
prop('C17', [Job('transpose', 'c17_transpose', dict(NMAX=12, SMAX=33), dict(NMAX=20, SMAX=65), reach=(0, 1, 2), bounds='all shapes up to NMAX x NMAX, squares up to SMAX, plain and aligned vectors'),
    Job('transpose_large', 'c17_transpose', dict(LARGE=1, EVERY=1009), dict(LARGE=1, EVERY=101), reach=(1, 2), bounds='eight larger shapes with up to 76800 elements; every EVERY-th element arbitrary, the others pairwise different', cap=2_000_000_000)])
prop('C18', [Job('builders', 'c18_builders', dict(NMAX=7), dict(NMAX=20), reach=(0, 1, 2), bounds='N <= NMAX; double and int; random engine arbitrary'),
    Job('builders_large', 'c18_builders', dict(IMIN=0, IMAX=27, WMAX=1), reach=(0, 1), bounds='identity and enumerating builder, ' + SIZES, cap=100_000_000),
    Job('random_mid', 'c18_builders', dict(NMIN=8, NMAX=16, WMIN=2, WMAX=2, TYPES=0), dict(NMIN=8, NMAX=24, WMIN=2, WMAX=2, TYPES=0), reach=(2,), bounds='the random builder for N = NMIN..NMAX', cap=50_000_000),
    Job('random_fine', 'c18_builders', dict(NMAX=2, WMIN=2, WMAX=2, TYPES=0, DRAWBITS=25), reach=(2,), bounds='the random builder for N <= NMAX with draws that are multiples of 2^-25'),
    Job('enumerating_large', 'c18_builders', dict(NMIN=4097, NMAX=4097, WMIN=1, WMAX=1, TYPES=0), reach=(1,), bounds='the enumerating builder for N = 4097 (more than 2^24 elements)', cap=4_000_000_000)])
prop('C19', [Job('alloc', 'c19_alloc', dict(NMAX=6, AMAX=8), dict(NMAX=40, AMAX=12, SKEW=255), reach=(1, 2, 3), bounds='1..NMAX elements of 1, 8 and 40 bytes, alignments 2^0..2^AMAX, the underlying block at any multiple of 16 below 16*SKEW (15) after a multiple of 2^24'),
    Job('alloc_large', 'c19_alloc', dict(LARGE=1, AMAX=12), reach=(1, 2, 3), bounds='7 16 100 255 256 1000 4097 70000 elements of 1, 8 and 40 bytes, alignments 2^0..2^AMAX, the underlying block 0 16 48 2032 3200 4080 bytes after a multiple of 2^24', cap=20_000_000)])
def other(fn, file, tr, q, t, reach=(0, 1), cap=20_000_000, extra=''):
    return Job(fn, 'c20_other', q, t, f'-fopenmp -mavx2 -mfma -DVF_FILE="otherExperiments/{file}.cpp" -DVF_FN={fn} -DVF_TR={tr} {extra}', reach=reach, bounds='n = UNIT * (NMIN..NMAX); all elements arbitrary if EVERY = 1, else every EVERY-th; 1..TMAX (3) threads; 64-byte aligned arrays, zeroed result', cap=cap)
prop('C20', [
    other('multNaive', 'multNaive', 0, dict(NMAX=18, TMAX=3), dict(NMAX=33, TMAX=16)), other('multTransposed', 'multTransposed', 1, dict(NMAX=18, TMAX=3), dict(NMAX=33, TMAX=16)), other('multCounter', 'multCounter', 1, dict(NMAX=18, TMAX=3), dict(NMAX=33, TMAX=16)),
    other('multASM', 'multASM', 1, dict(UNIT=4, NMAX=8, TMAX=3), dict(UNIT=4, NMAX=12, TMAX=9), extra='-DVF_GNUC'),
    other('multBlocked2', 'multBlocked', 1, dict(UNIT=2, NMAX=12, TMAX=3), dict(UNIT=2, NMAX=20, TMAX=9)), other('multBlocked4', 'multBlocked', 1, dict(UNIT=4, NMAX=7, TMAX=3), dict(UNIT=4, NMAX=10, TMAX=9)),
    other('multExchanged', 'multExchanged', 0, dict(UNIT=128, NMIN=0, NMAX=2, EVERY=401, TMIN=2, TMAX=2), dict(UNIT=128, NMIN=0, NMAX=2, EVERY=101), cap=2_000_000_000),
    other('multGPU', 'multGPU', 1, dict(UNIT=128, NMIN=0, NMAX=2, EVERY=401, TMIN=2, TMAX=2), dict(UNIT=128, NMIN=0, NMAX=2, EVERY=101), cap=6_000_000_000),
    other('multIntrinLoop', 'multIntrinLoop', 0, dict(UNIT=128, NMIN=0, NMAX=2, EVERY=401, TMIN=2, TMAX=2), dict(UNIT=128, NMIN=0, NMAX=2, EVERY=101), cap=2_000_000_000),
    other('multRegister', 'multRegister', 0, dict(UNIT=256, NMIN=0, NMAX=1, EVERY=4001, TMIN=2, TMAX=2), dict(UNIT=256, NMIN=0, NMAX=2, EVERY=4001), reach=(0,), cap=3_000_000_000),
    other('multGPUASM', 'multGPUASM', 1, dict(UNIT=256, NMIN=0, NMAX=1, EVERY=4001, TMIN=2, TMAX=2), dict(UNIT=256, NMIN=0, NMAX=2, EVERY=4001), reach=(0,), cap=1_000_000_000),
], [OMP, 'n is a multiple of the block size the kernel is written for; built with AVX2 and FMA as in its Makefile'])
prop('C21', [Job('print', 'c21_print', dict(NMAX=4), dict(NMAX=9), also=['variants/static_improved.cpp', *COMP], reach=range(9), bounds='all shapes up to NMAX x NMAX, all eight functions; schedules of 1..3 localities with 0..NMAX packages each'),
    Job('print_large', 'c21_print', dict(LARGE=1), also=['variants/static_improved.cpp', *COMP], reach=range(8), bounds='eight larger shapes with up to 4160 elements, all eight functions', cap=50_000_000)])
APPSRC = ['variants/static_improved.cpp', *COMP, 'variants/semi.cpp', 'variants/combined.cpp', 'reference_kernels/kernel_tiled.cpp']
APP = f'-fopenmp -mavx2 -iquote {os.path.dirname(os.path.abspath(__file__))}/harness/app {SMALL} -DK_REG=1'
ab = 'N = NMIN..NMAX or options left at their defaults (N = 4), both layouts, block sizes 1..2, 1..2 repetitions, work limits 0..4 / 0..8 / multiples of 2^-4 in [-2,2], verbose 0..2, with and without check, 1..LMAX (3) localities, last-in-first-out scheduler, every outcome of the random generator; combined and kernel_tiled with block sizes 10/5/5 x 16/8/8 x 4/2/2 through the hook'
prop('C22', [
    Job('application', 'c22_app', dict(AMIN=0, AMAX=7, NMAX=3), dict(AMIN=0, AMAX=7, NMAX=6), APP, also=APPSRC, reach=(0, 1, 2, 3, 4, 5, 6, 7, 20, 21, 30, 31, 32, 41), bounds='the eight algorithms of the help text; ' + ab, cap=20_000_000),
    Job('verdict', 'c22_app', dict(AMIN=8, AMAX=8, NMAX=2, LMAX=1), dict(AMIN=8, AMAX=8, NMAX=3), APP, also=APPSRC, reach=(8, 20, 21, 32, 33), bounds='an algorithm with an arbitrary error (multiples of 2^-36 up to 2^-31) in every element; ' + ab, cap=20_000_000),
    Job('unknown', 'c22_app', dict(AMIN=9, AMAX=12), 'same', APP, also=APPSRC, reach=(42,), bounds='four names that are no algorithms; ' + ab, cap=20_000_000),
    Job('help', 'c22_app', dict(HELP=1, AMAX=12), 'same', APP, also=APPSRC, reach=(40,), bounds='help with every algorithm; ' + ab, cap=20_000_000),
    Job('remote', 'c22_app', dict(REMOTE=1, AMAX=12), 'same', APP, also=APPSRC, reach=(40,), bounds='a locality other than the root; ' + ab, cap=20_000_000),
], [OMP, HPX, 'kernel_test is replaced by a stand-in that returns the product (it has its own check, C11); the prototype proposal by one that returns the product plus an arbitrary error'])
prop('C23', [Job('benchmark', 'c23_benchmark', dict(LEN=11), dict(LEN=16), '-mavx2', reach=(*range(11), 20, 21), bounds='no argument, any text of up to LEN characters, or such a text and another argument; n = 4096 as in the source', cap=4_000_000_000, deadline=400)], ['the kernels are replaced by recorders that change four elements of the result (they have their own check, C20)'])
prop('C24', [Job('exceptions', 'c24_exceptions', dict(LMAX=24), dict(LMAX=64), reach=(0, 1), bounds='every message of up to LMAX characters'),
    Job('long_messages', 'c24_exceptions', dict(LONG=1, EVERY=97), reach=(0, 1), bounds='25 lengths from 31 to 10000 characters around powers of two, every EVERY-th and the last character arbitrary', cap=50_000_000)])
FIXED = (dict(FIXED=1), 'as otherwise, but one sequence of pairwise different times between the readings of the clock')
prop('C26', [
    Job('report', 'c26_report', dict(NMAX=4, RMAX=4), dict(NMAX=6, RMAX=5, VMAX=2), APP + ' -DVF_CLOCK', also=APPSRC, fallback=FIXED, reach=(*range(9), 10, 11, 20, 21), bounds='the nine algorithms, N = 1..NMAX, 1..RMAX (3) repetitions, both layouts where allowed, block sizes 2, with and without check, verbose 0..VMAX (1); any time from 0.01 to 1.99 between two readings of the clock', cap=20_000_000),
    Job('inner', 'c26_report', dict(INNER=1, NMAX=12), dict(INNER=1, NMAX=20, RMAX=5), APP + ' -DVF_CLOCK', also=APPSRC, fallback=FIXED, reach=(0, 1), bounds='combined and kernel_tiled, N = 1..NMAX, 1..RMAX (3) repetitions, two calls of one object, any former value of the variable for the time', cap=50_000_000)], [OMP, HPX])
IDX = lambda f, ns, l='': f'-DVF_IDX="{f}" -DVF_NS={ns} {l}'
wb = 'DIM dimensions, any lower bound up to 2^40, five steps from 257 to 2^40-3, 0..LEN full steps per direction and a rest of 0, 1 or the step less one, up to one blocking of one or two steps, any parallel dimensions, schedulers 0..PMAX'
ib = 'DIM dimensions, any lower bound up to 2^40, extents 0..LEN, up to LEVELS blockings with block sizes 1..BMAX (times the step), any parallel dimensions, final steps 1..STEP (2), schedulers 0..PMAX'
V, M, L = IDX('variants/index_iterator.hpp', 'index_iterator'), IDX('memory_layout/index_iterator.hpp', 'index_iterator'), IDX('variants/looped.hpp', 'looped', '-DVF_LOOPED')
prop('C25', [
    Job('blocked_1d', 'c25_indices', dict(DIM=1, LEN=4, LEVELS=2), dict(DIM=1, LEN=7, LEVELS=2, BMAX=5, STEP=3), V, reach=(1, 10, 11, 12, 30), bounds=ib),
    Job('blocked_long', 'c25_indices', dict(DIM=1, LEN=17, LEVELS=1, BMAX=6, STEP=1, PMAX=0), dict(DIM=1, LEN=40, LEVELS=1, BMAX=9, STEP=2), V, reach=(1, 10, 11), bounds=ib),
    Job('blocked_2d', 'c25_indices', dict(DIM=2, LEN=3, LEVELS=1), dict(DIM=2, LEN=4, LEVELS=1, BMAX=3), V, reach=(2, 10, 11, 30), bounds=ib),
    Job('blocked_2d2', 'c25_indices', dict(DIM=2, LEN=3, LEVELS=2, BMAX=2, PMAX=0, STEP=1), dict(DIM=2, LEN=3, LEVELS=2, BMAX=2), V, reach=(2, 10, 11, 12), bounds=ib),
    Job('blocked_3d', 'c25_indices', dict(DIM=3, LEN=2, LEVELS=1, BMAX=2, PMAX=0, STEP=1), dict(DIM=3, LEN=3, LEVELS=1, BMAX=2), V, reach=(3, 10, 11), bounds=ib),
    Job('layout_1d', 'c25_indices', dict(DIM=1, LEN=4, LEVELS=2), dict(DIM=1, LEN=7, LEVELS=2, BMAX=5, STEP=3), M, reach=(1, 10, 11, 12, 30), bounds=ib),
    Job('layout_long', 'c25_indices', dict(DIM=1, LEN=17, LEVELS=1, BMAX=6, STEP=1, PMAX=0), dict(DIM=1, LEN=40, LEVELS=1, BMAX=9, STEP=2), M, reach=(1, 10, 11), bounds=ib),
    Job('layout_2d', 'c25_indices', dict(DIM=2, LEN=3, LEVELS=1, PMAX=0), dict(DIM=2, LEN=4, LEVELS=2, BMAX=2), M, reach=(2, 10, 11, 30), bounds=ib),
    Job('layout_3d', 'c25_indices', dict(DIM=3, LEN=2, LEVELS=1, BMAX=2, PMAX=0, STEP=1), dict(DIM=3, LEN=3, LEVELS=1, BMAX=2), M, reach=(3, 10, 11), bounds=ib),
    Job('looped_2d', 'c25_indices', dict(DIM=2, LEN=3, LEVELS=1), dict(DIM=2, LEN=4, LEVELS=2), L, reach=(2, 10, 11), bounds=ib),
    Job('blocked_wide1', 'c25_indices', dict(DIM=1, WIDE=1, LEN=3), dict(DIM=1, WIDE=1, LEN=5, PMAX=2, LEVELS=2), V, reach=(1, 10, 11, 40), bounds=wb),
    Job('blocked_wide2', 'c25_indices', dict(DIM=2, WIDE=1, LEN=1, PMAX=0), dict(DIM=2, WIDE=1, LEN=2), V, reach=(2, 10, 11, 40), bounds=wb),
    Job('layout_wide1', 'c25_indices', dict(DIM=1, WIDE=1, LEN=3), dict(DIM=1, WIDE=1, LEN=5, PMAX=2, LEVELS=2), M, reach=(1, 10, 11, 40), bounds=wb),
    Job('layout_wide2', 'c25_indices', dict(DIM=2, WIDE=1, LEN=1, PMAX=0), dict(DIM=2, WIDE=1, LEN=2), M, reach=(2, 10, 11, 40), bounds=wb),
    Job('looped_wide', 'c25_indices', dict(DIM=2, HUGE=1, LEN=2, LEVELS=1), dict(DIM=2, HUGE=1, LEN=4, LEVELS=1), L, reach=(2, 10, 11), bounds='block sizes 2, 2^31, 2^32, 2^32+1 and 2^40; ' + ib),
    Job('looped_3d', 'c25_indices', dict(DIM=3, LEN=3, LEVELS=1), dict(DIM=3, LEN=3, LEVELS=2, BMAX=2), L, reach=(3, 10, 11), bounds=ib),
], [HPX, 'upper bounds are not below the lower bounds, block sizes and steps are at least 1, with final steps the block sizes are multiples of them'])
# Element types other than double
def types(pid, what, q, t, reach, bounds, flags='', cap=20_000_000): PROPS[pid].jobs.append(Job('types', 'types', q, t, f'-DVF_WHAT={what} {flags}', reach=reach, cap=cap, bounds=bounds))
ty = 'integer elements of 8, 32 and 64 bits, all elements arbitrary; '
types('C01', 1, dict(NMAX=4), dict(NMAX=6), (0, 1, 2, 3), 'unsigned integers of 8, 32 and 64 bits, one factor arbitrary, the other fixed, N <= NMAX, both layouts of B, 1 or 2 threads', '-fopenmp')
for _p, _w in (('C12', 12), ('C13', 13), ('C14', 14), ('C15', 15)): types(_p, _w, dict(DIM=3, EMAX=8), dict(DIM=3, TMAX=3, CMAX=3, EMAX=24), (1, 2, 3), ty + '1..DIM dimensions, tile extents and numbers of tiles up to TMAX and CMAX (2), at most EMAX elements')
types('C17', 17, dict(NMAX=4), dict(NMAX=7), (0, 1), ty + 'every shape up to NMAX x NMAX')
types('C18', 18, dict(NMAX=17), dict(NMAX=40), (0,), 'identity and enumerating matrices of integers of 16, 32 and 64 bits, N <= NMAX')
# Histories: what one call leaves behind must not change the next. CALLS calls in a row, each with inputs of its own; TWO objects
# that exist at the same time, the first of which is run twice; an iteration inside the body of another.
def again(pid, like, q, t, reach=(), calls=2, cap=20_000_000, two=False, tag='', extra=''):
    ref = next(j for j in PROPS[pid].jobs if j.name == like)
    PROPS[pid].jobs.append(Job(f'{like}_{"two" if two else "again"}{tag}', ref.harness, {**q, **({'TWO': 1} if two else {'CALLS': calls})}, {**t, **({'TWO': 1} if two else {'CALLS': calls})}, ref.flags, reach=reach, also=ref.also, reblock=ref.reblock, engine=ref.engine, cap=cap,
        bounds=('two objects at the same time, the first run before and after the second; ' if two else f'{calls} calls in a row, each with sizes, options and elements of its own; ') + extra + 'bounds as given, otherwise as ' + like))
again('C01', 'naive', dict(NMAX=4, TMIN=2, TMAX=2), dict(NMAX=6, TMAX=3), (0, 1))
again('C01', 'naive_large', dict(IMIN=3, IMAX=7, TMIN=2, TMAX=2), dict(IMIN=0, IMAX=9, TMIN=2, TMAX=3), (0, 1), cap=400_000_000)
again('C02', 'kernels_large', dict(IMIN=0, IMAX=1, BMIN=4, BMAX=4, PLACES=1), dict(IMIN=0, IMAX=1, BMIN=4, BMAX=8, PLACES=1), (0, 1, 2, 3))
again('C03', 'single', dict(NMAX=4, BMAX=2, REPMAX=1, VMAX=0, PMIN=2), dict(NMAX=5, BMAX=5, VMAX=0), (0, 1)); again('C03', 'single', dict(NMAX=4, BMAX=2, REPMAX=1, VMAX=0, PMIN=2), dict(NMAX=5, BMAX=5, VMAX=0), (0, 1), two=True)
again('C04', 'schedule', dict(NMAX=6, LMAX=3, WMAX=4, DMAX=20), dict(NMAX=8, LMAX=4, WMAX=5, DMAX=40), (0, 101, 102, 103))
again('C05', 'pseudodynamic', dict(NMAX=3, BMAX=2, BRMIN=1, WMAX=1, DMAX=2, LMAX=2, REPMAX=1, VMAX=0, PMIN=2), dict(NMAX=4, BMAX=3, WMAX=2, DMAX=6, LMAX=3, REPMAX=1, VMAX=0), (0, 1, 11, 12)); again('C05', 'pseudodynamic', dict(NMIN=1, NMAX=3, BMAX=2, BRMIN=1, WMAX=1, DMAX=2, LMAX=2, REPMAX=1, VMAX=0, PMIN=2), dict(NMAX=4, BMAX=3, WMAX=2, DMAX=6, LMAX=3, REPMAX=1, VMAX=0), (0, 1, 11, 12), two=True)
for _p, _n in (('C06', 'algorithms'), ('C07', 'looped'), ('C08', 'semi')):
    for _w in (False, True): again(_p, _n, dict(NMAX=4, BMAX=4, PMIN=2), dict(NMAX=6, BMAX=6, PMIN=1), (0, 1, 2), two=_w)
for _p, _n, _k in (('C09', 'combined_small', dict(PMAX=0)), ('C10', 'tiled_small', dict(TMIN=2, TMAX=2)), ('C11', 'test_small', dict(TMIN=2, TMAX=2, FIT=1, PADDING=8, BX=8, BY=16, BK=16))):
    for _w in (False, True): again(_p, _n, dict(NMAX=16 if _p == 'C11' else 4, VMAX=0, **_k), dict(NMAX=20 if _p == 'C11' else 12, **_k), (0,), two=_w)
for _p, _n in (('C12', 'make_tiled'), ('C13', 'tile_view'), ('C14', 'iterate_tiles'), ('C15', 'undo')): again(_p, _n, dict(DIM=2, TMAX=2, CMAX=2, EMAX=12, AMAX=2), dict(DIM=3, TMAX=2, CMAX=2, EMAX=24, AMAX=3), (1, 2, 11, 12))
again('C16', 'nest2', dict(SPAN=3, STEP=2, DIM=1), dict(SPAN=3, STEP=2, DIM=2, TYPES=1), (1, 11, 20, 30))
again('C17', 'transpose', dict(NMAX=5, SMAX=6), dict(NMAX=8, SMAX=12), (0, 1, 2))
again('C18', 'builders', dict(NMAX=4), dict(NMAX=8), (0, 1, 2))
again('C19', 'alloc', dict(NMAX=3, AMAX=6, SKEW=2), dict(NMAX=5, AMAX=8, SKEW=4), (1, 2, 3))
for _f, _u, _n in (('multNaive', 1, 5), ('multTransposed', 1, 5), ('multCounter', 1, 5), ('multASM', 4, 3), ('multBlocked2', 2, 3), ('multBlocked4', 4, 2)): again('C20', _f, dict(UNIT=_u, NMAX=_n, TMIN=2, TMAX=2), dict(UNIT=_u, NMAX=_n + 2, TMAX=3), (0, 1))
for _f in ('multExchanged', 'multGPU', 'multIntrinLoop'): again('C20', _f, dict(UNIT=128, NMIN=1, NMAX=1, EVERY=401, TMIN=2, TMAX=2), dict(UNIT=128, NMIN=0, NMAX=2, EVERY=401), (0,), cap=6_000_000_000)
again('C21', 'print', dict(NMAX=2), dict(NMAX=4), range(9))
again('C24', 'exceptions', dict(LMAX=6), dict(LMAX=20), (0, 1))
for _j in list(PROPS['C25'].jobs):
    if _j.name in ('blocked_1d', 'blocked_2d', 'layout_1d', 'layout_2d', 'looped_2d'):
        d = int(_j.name[-2]); PROPS['C25'].jobs.append(Job(_j.name + '_again', _j.harness, dict(DIM=d, LEN=2 + (d == 1), LEVELS=1, BMAX=2, STEP=1, PMAX=0 if d == 2 else 2, AGAIN=1), dict(DIM=d, LEN=3, LEVELS=2 if d == 1 else 1, BMAX=2, PMAX=2, AGAIN=1), _j.flags, reach=(d, 10, 11), bounds='the same policy object used for two ranges; ' + _j.bounds))
        PROPS['C25'].jobs.append(Job(_j.name + '_nested', _j.harness, dict(DIM=d, LEN=3, LEVELS=1, BMAX=2, STEP=1, NESTED=1), dict(DIM=d, LEN=3, LEVELS=2, BMAX=2, NESTED=1), _j.flags, reach=(d, 10, 11), bounds='the first and third call of the body run another iteration; ' + _j.bounds))
