#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; both are committed)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(pid, title, statement, over, text, why, files, mech, note):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), note))
NOHPX = 'The tests of this part need HPX, which is not installed, so nothing is tested here; where they run, they sample a few power-of-two sizes with one fixed matrix each. '
S = 'src/'
p('C01', 'The reference multiplication returns the exact product for all sizes and layouts',
  'The naive reference multiplication returns, for every matrix size, every arithmetic element type and all elements, the matrix whose element (i,j) is the dot product of row i of A and column j of B, both for a row-major and for a transposed B. It leaves A and B as they were, and the result does not depend on the number of OpenMP threads.',
  ['inputs', 'schedules'], 'all N, all A and B, both layouts, every number of threads and interleaving',
  'The tests that use it compare other algorithms with it and never judge it; a wrong reference makes every comparison in the project meaningless.',
  [S + 'reference_kernels/naive.hpp'], [('naive_matrix_multiply', S + 'reference_kernels/naive.hpp'), ('naive_matrix_multiply_transposed', S + 'reference_kernels/naive.hpp')], '')
p('C02', 'Block kernels compute exactly the requested block of the product',
  'Multiplying a block yields, for every matrix size, block position, block size and input block size, exactly the elements of the product A*B in that block, for both layouts of B. Only memory of the matrices and of the block is read and written, and A and B are unchanged.',
  ['inputs', 'configurations'], 'all N, all blocks inside the result, all input block sizes, all elements',
  NOHPX + 'Block sizes that do not divide N are not sampled at all.',
  [S + 'reference_kernels/kernel.hpp', S + 'variants/components/multiplier.cpp'], [('kernel, kernel_transposed, kernel_transposed_blocked', S + 'reference_kernels/kernel.hpp'), ('multiplier::calculate_submatrix', S + 'variants/components/multiplier.cpp')], '')
p('C03', 'The single-node algorithm returns the exact product for every configuration',
  'The single-node algorithm returns A*B for every matrix size, every result and input block size including 0 (no blocking), every number of repetitions and both layouts of B. The result does not depend on the order in which the recursive tasks run, and A and B are unchanged.',
  ['inputs', 'configurations', 'schedules'], 'all N, block sizes, repetitions, layouts, elements and task orders', NOHPX,
  [S + 'variants/single.cpp', S + 'variants/components/recursive.cpp', S + 'variants/components/multiplier.cpp'], [('single::matrix_multiply', S + 'variants/single.cpp'), ('recursive::distribute_recursively', S + 'variants/components/recursive.cpp')], '')
p('C04', 'The work distribution partitions the result, respects limits and terminates',
  'For every matrix size, number of localities and limits, the work distribution terminates and assigns every element of the result to exactly one work package inside the matrix, with one list of packages per locality. Packages are not divided below the minimum work size, and the distribution only stays unbalanced beyond the tolerated differences when the most loaded localities have nothing left to divide.',
  ['inputs', 'configurations'], 'all N, all numbers of localities, all minimum work sizes and absolute and relative tolerances', NOHPX + 'Termination and exact cover over all limits cannot be sampled.',
  [S + 'variants/static_improved.cpp', S + 'variants/matrix_multiply_work.hpp'], [('static_improved::create_schedule', S + 'variants/static_improved.cpp')], '')
p('C05', 'The distributed pseudodynamic algorithm returns the exact product on any cluster',
  'The pseudodynamic algorithm returns A*B for every matrix size, number of localities, root locality, block sizes, work limits, number of repetitions and layout of B. The result does not depend on the order in which localities and tasks finish, A and B are unchanged, and with several localities the root does no computation.',
  ['inputs', 'configurations', 'schedules'], 'all N, localities, limits, block sizes, elements and completion orders', NOHPX,
  [S + 'variants/pseudodynamic.cpp', S + 'variants/static_improved.cpp', S + 'variants/components/recursive.cpp', S + 'variants/components/multiplier.cpp'], [('pseudodynamic::matrix_multiply', S + 'variants/pseudodynamic.cpp'), ('static_improved::matrix_multiply', S + 'variants/static_improved.cpp')], '')
for pid, n, f, w in (('C06', 'parallel-algorithms', 'algorithms.hpp', 'algorithms::matrix_multiply'), ('C07', 'looped', 'looped.hpp', 'looped::matrix_multiply'), ('C08', 'semi', 'semi.cpp', 'semi::matrix_multiply')):
    p(pid, f'The {n} algorithm returns the exact product for all block sizes',
      f'The {n} algorithm returns A*B for every matrix size and all result and input block sizes of at least 1, whether or not they divide the matrix size, given B transposed. It accesses only memory of the matrices, its result does not depend on the order of the parallel iterations, and A and B are unchanged.',
      ['inputs', 'configurations', 'schedules'], 'all N, block sizes, elements and orders of the parallel iterations', NOHPX + 'Only block sizes dividing N are ever used by them.',
      [S + 'variants/' + f] + ([S + 'variants/index_iterator.hpp'] if pid == 'C08' else []), [(w, S + 'variants/' + f)], '')
for pid, n, f, w, par in (('C09', 'combined', 'variants/combined.cpp', 'combined::matrix_multiply', 'parallel blocks'), ('C10', 'tiled reference', 'reference_kernels/kernel_tiled.cpp', 'kernel_tiled::matrix_multiply', 'OpenMP threads'), ('C11', 'padded test', 'reference_kernels/kernel_test.cpp', 'kernel_test::matrix_multiply', 'OpenMP threads')):
    p(pid, f'The {n} blocked kernel returns the exact product for every size',
      f'The {n} kernel returns A*B of size N x N for every matrix size, including sizes that are no multiple of any cache or register block, and for every number of repetitions, given a row-major B. Padding never shows in the result, only memory of the (padded) matrices is accessed with the required alignment, the result does not depend on the order of the {par}, and A and B are unchanged.',
      ['inputs', 'configurations', 'schedules'], f'all N, elements, repetitions and orders of the {par}', NOHPX + 'Sizes at the borders of the three block levels are not sampled.',
      [S + f], [(w, S + f)], ' Multi-block behaviour is decided with all elements arbitrary at small block sizes supplied through the MMHPX_VERIF_BLOCKING hook, and at the block sizes of the source with a sparse set of arbitrary elements.')
TL = 'The two tests that run here check one two-dimensional layout with concrete numbers. '
p('C12', 'Tiling an array is a lossless reordering into tile-major order',
  'Tiling an array of any dimension and element type stores the element of every coordinate in its tile, tiles and the elements of a tile in row-major order, for every choice of tile extents that divide the array extents. No element is lost or duplicated, the original is unchanged, and a description with the wrong number of dimensions is refused with an exception.',
  ['inputs', 'configurations'], 'all dimensions, extents, tile sizes and contents', TL + 'Other dimensions and non-square tiles are not tested.',
  [S + 'memory_layout/tile_array.hpp', S + 'memory_layout/loop_nest.hpp', S + 'memory_layout/util.hpp'], [('make_tiled', S + 'memory_layout/tile_array.hpp')], '')
p('C13', 'A tile view addresses exactly the elements of its tile',
  'Every way of addressing a tile view (by coordinates, by an index array, by flat position) denotes the element of the tiled array with those coordinates inside that tile, for every dimension, element type, layout and tile. Writes through a view change exactly that element, and size, tile index and tile counts reported by the view are those of the layout, also after the caller\'s description of the layout is gone.',
  ['inputs', 'configurations'], 'all dimensions, layouts, tiles and coordinates', TL, [S + 'memory_layout/tile_view.hpp', S + 'memory_layout/util.hpp'], [('tile_view', S + 'memory_layout/tile_view.hpp'), ('flat_index', S + 'memory_layout/util.hpp')], '')
p('C14', 'Iterating over tiles visits every tile once, in row-major order',
  'Iterating over the tiles of a tiled array calls the visitor exactly once per tile, in row-major order of the tile indices, with a view of exactly that tile, for every dimension, element type and layout, including layouts without tiles. Nothing is changed except what the visitor writes.',
  ['inputs', 'configurations'], 'all dimensions and layouts', TL, [S + 'memory_layout/tile_iterator.hpp', S + 'memory_layout/tile_view.hpp'], [('iterate_tiles', S + 'memory_layout/tile_iterator.hpp')], '')
p('C15', 'Undoing a tiling is the exact inverse of tiling',
  'Undoing the tiling of an array gives back the array, and tiling an untiled array gives back the tiled array, for every dimension, element type, layout and content. The input is unchanged, and a description with the wrong number of dimensions is refused with an exception.',
  ['inputs', 'configurations'], 'all dimensions, layouts and contents', 'No test that runs here calls it.', [S + 'memory_layout/tile_array.hpp', S + 'memory_layout/tile_iterator.hpp'], [('undo_tiling', S + 'memory_layout/tile_array.hpp')], '')
p('C16', 'A loop nest runs its body for exactly the index tuples of nested loops, in order',
  'A loop nest of any depth calls its body exactly once for every index tuple of the equivalent nested for loops, in lexicographic order, for all lower bounds, upper bounds and positive steps, signed or unsigned. Empty ranges call nothing, and the bounds are not modified.',
  ['inputs'], 'all depths, bounds, steps and index types', 'The tests only use it indirectly, with lower bound 0 and step 1.', [S + 'memory_layout/loop_nest.hpp'], [('loop_nest', S + 'memory_layout/loop_nest.hpp')], '')
p('C17', 'Transposing exchanges rows and columns and is its own inverse',
  'The transpose of a matrix of any shape and element type has element (i,j) equal to element (j,i) of the original; the original is unchanged. Transposing twice gives the original matrix.',
  ['inputs'], 'all shapes and contents', 'No test covers rectangular shapes.', [S + 'util/transpose_matrix.hpp'], [('transpose_matrix', S + 'util/transpose_matrix.hpp')], '')
p('C18', 'Matrix builders produce exactly the matrices they promise',
  'For every size and arithmetic element type the identity builder yields ones on the diagonal and zeros elsewhere, the enumerating builder yields the row-major position of each element, and the random builder yields N*N values of [0,1), one draw per element, whatever the generator delivers.',
  ['inputs'], 'all sizes, element types and generator outputs', 'They are only used with fixed sizes and one generator.', [S + 'util/create_identity_matrix.hpp', S + 'util/pattern_matrices.hpp', S + 'util/create_random_matrix.hpp'], [('create_identity_matrix', S + 'util/create_identity_matrix.hpp'), ('create_enumerating_matrix', S + 'util/pattern_matrices.hpp'), ('create_random_matrix', S + 'util/create_random_matrix.hpp')], '')
p('C19', 'The aligned allocator returns usable memory with the requested alignment',
  'For every element type, count and power-of-two alignment, and wherever the underlying allocation happens to start, the memory returned is aligned as requested and all requested elements can be stored in it. It is released exactly once.',
  ['inputs', 'configurations'], 'all element sizes, counts, alignments and start addresses', 'There is no test; a misplacement only shows for particular start addresses.', [S + 'aligned_allocator.hpp'], [('aligned_allocator::alloc', S + 'aligned_allocator.hpp')], '')
p('C20', 'Each experimental kernel computes the exact product for every size it supports',
  'Each kernel of the experiments adds or stores the exact product A*B into a zeroed result, for every multiple of its block size, given B in the layout the benchmark passes. It accesses only memory of the arrays, with the alignment its vector instructions require; the result does not depend on the number of threads, and A and B are unchanged.',
  ['inputs', 'schedules'], 'all supported n, elements, thread counts and interleavings', 'The benchmark only prints a time; nothing checks a result.', ['otherExperiments/mult*.cpp'], [('mult* kernels', 'otherExperiments/')], '')
p('C21', 'Printing shows every element once, row by row, on the right stream',
  'Each printing function writes one line per row with the elements separated by a comma and a blank, every element exactly once in the order of the (transposed) matrix, for square and rectangular shapes, to the stream it is meant for. It does not change the matrix or read outside it. The printed work distribution has one line per locality that lists the sizes of its work packages in order.',
  ['inputs'], 'all shapes, contents and work distributions', 'No test looks at printed output.', [S + 'util/util.hpp', S + 'variants/static_improved.cpp'], [('print_matrix*', S + 'util/util.hpp'), ('static_improved::print_schedule', S + 'variants/static_improved.cpp')], '')
p('C22', 'The application computes, checks and reports truthfully, and refuses the rest',
  'For every algorithm of the help text and every combination of supported options, the application shows matrices A, B and C with C = A*B and exits with 0, and its check prints "check passed" exactly if every element of the result is within 1E-10 of the reference, otherwise "check failed". A layout the algorithm does not support is refused with an exception, an unknown algorithm with a message and exit code 1. Asking for help, and running on a locality other than the root, computes and reports nothing.',
  ['inputs', 'configurations'], 'all algorithms, options, numbers of localities, random matrices and errors of the result', 'The application is run by no test and needs HPX; its own check cannot judge itself.',
  [S + 'matrix_multiply_application/matrix_multiply.cpp'], [('hpx_main, main', S + 'matrix_multiply_application/matrix_multiply.cpp')], ' kernel_test (C11) and the unfinished prototype proposal are replaced by stand-ins in this check.')
p('C23', 'The benchmark runs exactly the named kernel, once, on the right operands',
  'For every command line, the benchmark of the experiments runs exactly the kernel whose name is its first argument, once, and none if there is no argument or the text is no such name, which it then reports. The kernel gets 64-byte aligned, non-overlapping arrays of n*n elements inside allocated memory, with n a multiple of the block sizes of all kernels: A filled with twos, the identity, and a zeroed result. The reported check value is the Euclidean norm of what the kernel left in the result.',
  ['inputs'], 'all command-line texts', 'The benchmark has no test; a run by hand takes minutes and shows one kernel.', ['otherExperiments/benchmark.cpp', 'otherExperiments/mult.hpp'], [('main', 'otherExperiments/benchmark.cpp')], ' The kernels themselves are C20.')
p('C24', 'Exceptions carry their full message wherever they are caught',
  'For every message text, an exception thrown by the project and caught as a standard exception reports the name of the exception followed by exactly that text. The message stays valid while the exception lives, survives copying, and can be read repeatedly.',
  ['inputs'], 'all message texts', 'No test reads a message.', [S + 'util/matrix_multiplication_exception.hpp', S + 'memory_layout/memory_layout_exception.hpp'], [('what', S + 'util/matrix_multiplication_exception.hpp'), ('what', S + 'memory_layout/memory_layout_exception.hpp')], '')
p('C25', 'Blocked index iteration visits every index of the range exactly once',
  'Iterating over an index range with any number of nested blockings, any block sizes and any choice of parallel dimensions calls the body exactly once for every index of the range (every lattice point, with final steps), and never outside it. This holds for any lower bound, for blocks that do not divide the range, and for every order in which parallel blocks run, without data races.',
  ['inputs', 'configurations', 'schedules'], 'all ranges, blockings, parallel dimensions and orders of the parallel blocks', NOHPX + 'Indices visited twice or skipped only show for block sizes that do not divide the range.',
  [S + 'variants/index_iterator.hpp', S + 'memory_layout/index_iterator.hpp', S + 'variants/looped.hpp'], [('iterate_indices', S + 'variants/index_iterator.hpp'), ('iterate_indices', S + 'memory_layout/index_iterator.hpp'), ('iterate_indices', S + 'variants/looped.hpp')], '')
p('C26', 'Reported times, averages and performance are those of the runs that took place',
  'For every algorithm and number of repetitions, however the clock advances, the shown total time contains every run of the algorithm and no more than passed. The number of repetitions shown is the number of runs that took place, the average is the total divided by it, and the performance is 2*N^3 operations per run in that time; inner times and performances (of the sizes shown with them) and those of the reference agree with what was timed. The time a kernel returns does not depend on what its variable held before.',
  ['inputs', 'configurations'], 'all times between readings of the clock, algorithms, repetitions and sizes', 'No test looks at a reported number, and real times cannot be compared with anything; evaluate.py plots them.',
  [S + 'matrix_multiply_application/matrix_multiply.cpp', S + 'variants/combined.cpp', S + 'reference_kernels/kernel_tiled.cpp'], [('hpx_main, main', S + 'matrix_multiply_application/matrix_multiply.cpp'), ('combined::matrix_multiply', S + 'variants/combined.cpp'), ('kernel_tiled::matrix_multiply', S + 'reference_kernels/kernel_tiled.cpp')], ' kernel_test and the prototype proposal are replaced by stand-ins that only count runs.')
EXTRA = os.path.join(HERE, 'tools', 'extra_meta.py')
NA = []
if os.path.exists(EXTRA): exec(open(EXTRA).read())
P.sort(key=lambda x: x[0]['id'])
for d, _ in P:
    if len(d['title']) > 80: print('TITLE', d['id'], len(d['title']))
    assert d['statement'].count('. ') <= 2, d['id']
with open(f'{HERE}/properties.jsonl', 'w') as f:
    for d, _ in P: f.write(json.dumps(d) + '\n')
na = {x['property'] for x in NA}
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=verification hook'], capture_output=True, text=True).stdout.split()
man = dict(version=1, setup_cmd='make -C engine', hooks=dict(guard='MMHPX_VERIF_BLOCKING', enable='-DMMHPX_VERIF_BLOCKING with -DL3_X=.. etc. when the harness of C09, C10, C22 and C26 is compiled', source_commits=hook),
    checks=[dict(property=d['id'], quick_cmd=f'python3 check.py {d["id"]} --tier quick', thorough_cmd=f'python3 check.py {d["id"]} --tier thorough', evidence_file=f'evidence/{d["id"]}.json',
                 technique='symbolic execution of the LLVM IR of the real sources (own engine) with Z3; counterexamples replayed natively', level='model_checking',
                 level_note='Holds for every value within the bounds stated in the evidence; nothing is claimed outside them. Trusts clang -O1 IR, the engine, Z3 and the library stand-ins listed in DESIGN.md; sample paths of every run are validated natively.' + note) for d, note in P if d['id'] not in na],
    not_applicable=NA)
json.dump(man, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
