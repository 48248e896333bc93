"""Properties of the CUDA operations; executed by mkspec.py."""

OPS = 'custom_ops/tfg_custom_ops/'
GPU_WHY = ('The operations are only used on machines with a GPU; the tests '
           'of the repository run the TensorFlow fallback, and compare the '
           'operations with it on one cloud where they are installed. ')
GPU_NOTE = ('held on the executed cases, devices and schedules; the CUDA '
            'runtime is simulated on the CPU, clouds are not empty')
prop('C22', 'CUDA operations: keys, grids and neighbor search are exact',
     'With the CUDA operations in place of the TensorFlow fallback, grids and '
     'neighborhoods hold what they hold without: sorted cell keys, cell '
     'ranges, and for each center exactly the points of its batch element '
     'inside of its radii, each once, or a random selection of the given '
     'number of them where limited. This holds for clouds and numbers of centers of any size, '
     'which need many blocks or several levels of the parallel scan. '
     'Arguments of inconsistent shapes are rejected before a kernel runs.',
     ['inputs', 'schedules'],
     'all non-empty clouds of 2 to 6 dimensions, radii, cell sizes, limits, '
     'and devices',
     GPU_WHY + 'Neighbors are stored at places computed by a parallel scan of '
     'counts, right only if all blocks agree.',
     [OPS + 'compute_keys/cc',
      OPS + 'build_grid_ds/cc',
      OPS + 'find_neighbors/cc', PC + 'custom_ops/custom_ops_wrapper.py'],
     [('cell ranges', OPS + 'find_neighbors/cc/kernels'),
      ('parallel scan', OPS + 'find_neighbors/cc/kernels/scan_alg_kernels.cu.cc'),
      ('selection of the operations', PC + 'custom_ops/__init__.py')],
     'runtime monitoring: kernels compiled with access instrumentation run '
     'on a simulated device, results checked against brute force',
     GPU_NOTE)
prop('C23', 'CUDA operations: samplings are valid',
     'With the CUDA operations, Poisson disk sampling returns points of the '
     'cloud, with their own batch ids and indices, such that no two of one '
     'element are within the radii of each other and every point has one '
     'within. Cell average sampling returns the mean of the points of each '
     'occupied cell, once. Arguments of inconsistent shapes are rejected.',
     ['inputs', 'schedules'],
     'all non-empty clouds, neighborhoods, devices and orders of execution '
     'of threads',
     GPU_WHY + 'Points of one cell or of one color of cells are decided by '
     'concurrent threads.',
     [OPS + 'sampling/cc', OPS + 'sampling/python/ops/sampling_ops.py'],
     [('counting of samples', OPS + 'sampling/cc/kernels/count_sampling_pd_kernels.cu.cc'),
      ('means of cells', OPS + 'sampling/cc/kernels/sampling_avg_kernels.cu.cc')],
     'runtime monitoring: instrumented kernels on a simulated device, '
     'samplings checked for separation, coverage and means',
     GPU_NOTE)
prop('C24', 'CUDA operations: densities, aggregation and gradients are exact',
     'The CUDA operations return the kernel density estimate of each point '
     'and, for each center, the sum of the outer products of basis values '
     'and features over its neighbors, for all supported numbers of basis '
     'functions and features and lists of neighbors of any lengths. Their '
     'registered gradients, with respect to points, basis values and '
     'features, are the exact derivatives of these. Arguments of '
     'inconsistent shapes are rejected.',
     ['inputs', 'schedules'],
     'all lists of neighbors, numbers of features (1 to 7 or multiples of 8) '
     'and of basis functions (8, 16, 32, 64), densities and devices',
     GPU_WHY + 'Blocks share out pairs, features and basis functions '
     'depending on the numbers of each; partial sums meet in atomics.',
     [OPS + 'compute_pdf/cc', OPS + 'basis_proj/cc',
      PC + 'custom_ops/custom_ops_wrapper.py'],
     [('density and gradient', OPS + 'compute_pdf/cc/kernels'),
      ('aggregation and gradients', OPS + 'basis_proj/cc/kernels')],
     'runtime monitoring: instrumented kernels on a simulated device, '
     'results and gradients checked against float64 sums',
     GPU_NOTE)
prop('C25', 'CUDA operations access memory safely and race free',
     'No kernel of the CUDA operations reads or writes outside of a live '
     'buffer or reads global memory that nothing has written, and no two '
     'threads make conflicting accesses that are not ordered by a barrier or '
     'atomic. All threads of a block reach the same barriers. Results do not '
     'depend on the number of processors, the schedule, the timing of the '
     'host, or the previous contents of memory; which of the neighbors a '
     'limited search keeps and which points a sampling picks may.',
     ['inputs', 'schedules'],
     'all clouds, devices and interleavings of blocks and threads',
     GPU_WHY + 'Races and stray accesses mostly do not show in a run.',
     [OPS + 'shared/cc/kernels', OPS + 'find_neighbors/cc/kernels',
      OPS + 'sampling/cc', OPS + 'basis_proj/cc/kernels',
      OPS + 'compute_pdf/cc/kernels', OPS + 'build_grid_ds/cc/kernels'],
     [('parallel scan', OPS + 'find_neighbors/cc/kernels/scan_alg_kernels.cu.cc'),
      ('device sizes', OPS + 'shared/cc/kernels/tf_gpu_device.cpp'),
      ('temporary buffers', OPS + 'shared/cc/kernels/tf_utils.hpp')],
     'sanitizer: every access of instrumented kernels is checked against '
     'shadow memory (bounds, initialization, races, barriers), on several '
     'devices and schedules', GPU_NOTE,
     ['instrumented loads and stores', 'barriers', 'atomics', 'launches'])
prop('C26', 'Layers and networks work on the CUDA operations',
     'Convolution and pooling layers, upsampling, networks and their '
     'gradients, and functions traced in graph mode satisfy their properties '
     'with the CUDA operations too.',
     ['inputs', 'programs'],
     'all layers, networks and pipelines with supported numbers of basis '
     'functions and features',
     GPU_WHY, [PC + 'layers', PC + 'custom_ops', OPS],
     [('operations in layers', PC + 'layers/MCConv.py, PointConv.py, '
       'KPConv.py')],
     'runtime monitoring of layers on instrumented kernels against float64 '
     'models', GPU_NOTE)
