"""Per property: number of cases, deciding counters, texts for evidence."""

META = {
    'C01': dict(
        quick=400, thorough=8000,
        rule='random clouds (1-12 elements incl. empty ones, 2-5 dimensions, '
             'shuffled ids, garbage/NaN padding) built in every documented '
             'form; non-trivial: distinct (form, style, order, dimension, '
             'sizes, batch shape)',
        min_events={'elements_read': 200, 'padded_reads': 200,
                    'rejections': 100, 'empty_elements': 20}),
    'C02': dict(
        quick=400, thorough=8000,
        rule='random histories of queries and batch shape changes on clouds '
             'and hierarchies against a model keyed by points and current '
             'shape; non-trivial: distinct (form, size, history)',
        min_events={'queries': 1500, 'shape_changes': 200,
                    'rejections': 30}),
    'C03': dict(
        quick=400, thorough=8000,
        rule='random clouds incl. single points, flat extents, large offsets; '
             'non-trivial: distinct (form, style, dimension, sizes)',
        min_events={'boxes': 300}),
}

META.update({
    'C04': dict(
        quick=400, thorough=8000,
        rule='random clouds and cell sizes incl. points on cell faces and '
             'more cells than 32 bit; non-trivial: distinct (style, dimension,'
             ' sizes, number of cells)',
        min_events={'points_in_cells': 2000, 'occupied_columns': 1000,
                    'keys_beyond_int32': 30}),
    'C05': dict(
        quick=400, thorough=8000,
        rule='random clouds, centers and per-dimension radii with cells of '
             'at least the radius; brute force in float64 is the oracle, '
             'pairs within float32 rounding of the radius count as gray; '
             'non-trivial: distinct (style, sizes, centers, number of pairs)',
        min_events={'pairs': 5000, 'centers': 2000,
                    'centers_without_neighbors': 20}),
    'C06': dict(
        quick=250, thorough=5000,
        rule='the same query through every entry point; non-trivial: '
             'distinct (style, dimension, centers, number of pairs)',
        min_events={'pairs': 5000, 'limited': 200, 'limit_effective': 200,
                    'transposed': 200, 'scalar_radii': 50,
                    'far_from_origin': 20}),
})

META.update({
    'C07': dict(
        quick=250, thorough=5000,
        rule='random clouds, radii and bandwidths, histories of pdf '
             'computations, all entry points, against the kernel sum in '
             'float64; non-trivial: distinct (style, dimension, sizes, pairs)',
        min_events={'pairs': 5000, 'pdf_computations': 300, 'inside': 50,
                    'limited_neighborhoods': 20}),
    'C08': dict(
        quick=300, thorough=5000,
        rule='random clouds and radii, all entry points, random draws '
             'counted; non-trivial: distinct (style, dimension, sizes, number '
             'of samples)',
        min_events={'samples_checked': 1000, 'points_removed': 500,
                    'ids_checked': 500}),
    'C09': dict(
        quick=400, thorough=8000,
        rule='random clouds and cell sizes, all entry points; non-trivial: '
             'distinct (style, dimension, sizes, number of samples)',
        min_events={'cell_means': 1000, 'points_merged': 500,
                    'own_cells': 100, 'wide_grids': 20}),
    'C10': dict(
        quick=200, thorough=3000,
        rule='random clouds, 1-3 levels, both modes, cell sizes given in all '
             'forms; non-trivial: distinct (mode, style, sizes of levels)',
        min_events={'levels': 200, 'pairs': 2000, 'samples_checked': 300,
                    'cell_means': 300}),
})

META.update({
    'C11': dict(
        quick=250, thorough=5000,
        rule='random clouds, centers, radii, weights, activations, MLP '
             'shapes, feature layouts; oracle: float64 convolution with brute '
             'force neighbors; non-trivial: distinct (style, sizes, pairs, '
             'activation, MLP shape)',
        min_events={'pairs': 3000, 'layer_outputs': 3000, 'rejections': 20,
                    'centers_without_neighbors': 10}),
    'C12': dict(
        quick=300, thorough=5000,
        rule='as C11 for PointConv',
        min_events={'pairs': 3000, 'layer_outputs': 3000,
                    'centers_without_neighbors': 10}),
    'C13': dict(
        quick=300, thorough=5000,
        rule='as C11 for rigid and deformable KPConv with spherical and '
             'custom kernel points',
        min_events={'pairs': 3000, 'layer_outputs': 3000, 'deformable': 100,
                    'losses': 40, 'rejections': 20}),
    'C14': dict(
        quick=200, thorough=3000,
        rule='all kernel sizes, random rotations, cubes; non-trivial: '
             'distinct (size, cube, rotated set)',
        min_events={'rotations': 400, 'rejections': 100}),
    'C15': dict(
        quick=250, thorough=5000,
        rule='random clouds, radii, layouts for the four pooling layers',
        min_events={'pooled': 3000}),
})

META.update({
    'C16': dict(
        quick=280, thorough=5000,
        rule='random clouds in every construction form, all layer types, all '
             'input and output layouts; non-trivial: distinct (layer, form, '
             'sizes, shapes)',
        min_events={'layouts': 500, 'padded_inputs': 500, 'conv1x1': 20,
                    'shuffled_padded_inputs': 20}),
    'C17': dict(
        quick=250, thorough=5000,
        rule='pairs of executions on related inputs with exactly '
             'representable coordinates; non-trivial: distinct (layer, style, '
             'sizes, pairs)',
        min_events={'relations': 500, 'translations': 100, 'isolation': 60,
                    'single_elements': 50, 'linear': 50, 'scales': 100}),
    'C18': dict(
        quick=180, thorough=3000,
        rule='the three block types, three convolutions, one or two blocks, '
             'both training modes, random normalization state; non-trivial: '
             'distinct (block, convolution, sizes, blocks, projection)',
        min_events={'forward_passes': 200, 'training_passes': 50,
                    'given_neighborhoods': 50}),
})

META.update({
    'C19': dict(
        quick=240, thorough=4000,
        rule='layers, pooling and densities on random clouds; directional '
             'derivatives of float64 references by central differences at '
             'two step sizes (disagreeing steps = kink, skipped); '
             'non-trivial: distinct (kind, style, sizes, pairs, activation)',
        min_events={'derivatives': 1000, 'nonzero_derivatives': 700,
                    'point_gradients': 60, 'density_gradients': 15}),
})

META.update({
    'C20': dict(
        quick=300, thorough=5000,
        rule='random files (delimiters, number formats, dimensions, feature '
             'counts, with and without newline at the end), batches and '
             'batch shapes; meshes through a stand-in for the third party '
             'mesh reader; non-trivial: distinct (format, sizes, shape)',
        min_events={'files': 800, 'batches': 100, 'mesh_batches': 100,
                    'rejections': 500},
        assumptions=['the third party mesh reader returns the vertices of '
                     'the file (it does not run in this environment)']),
})

META.update({
    'C21': dict(
        quick=96, thorough=1600,
        rule='16 pipelines traced with unknown and with known numbers of '
             'points, run on several clouds each; non-trivial: distinct '
             '(pipeline, style, sizes)',
        min_events={'calls': 120, 'results': 300}),
})

SIM = dict(prepare='vf.gpu.sim:prepare')
OPS_ASSUME = [
    'the CUDA runtime and device are simulated: kernels are compiled for the '
    'CPU with the access instrumentation of ThreadSanitizer and run as fibers '
    'with sequentially consistent memory',
    'clouds are not empty and have 2 to 6 dimensions; 8, 16, 32 or 64 basis '
    'functions; 1 to 7 or a multiple of 8 features']
META.update({
    'C22': dict(
        SIM, quick=480, thorough=8000, assumptions=OPS_ASSUME,
        rule='cases of C02, C04, C05, C06, C10 and large clouds, executed by '
             'the CUDA operations on random devices and schedules; '
             'non-trivial: distinct (case, device)',
        min_events={'gpu_launches': 5000, 'gpu_reads': 1000000,
                    'pairs': 50000, 'large_clouds': 40, 'rejections': 300,
                    'huge_scans': 1, 'random_selections': 8}),
    'C23': dict(
        SIM, quick=400, thorough=6000, assumptions=OPS_ASSUME,
        rule='cases of C08, C09, C10 and large clouds, executed by the CUDA '
             'operations on random devices and schedules; non-trivial: '
             'distinct (case, device)',
        min_events={'gpu_launches': 5000, 'samples_checked': 3000,
                    'cell_means': 2000, 'large_clouds': 40,
                    'rejections': 200}),
    'C24': dict(
        SIM, quick=480, thorough=8000, assumptions=OPS_ASSUME,
        rule='arbitrary neighbor lists, numbers of features and basis '
             'functions, densities and gradients, cases of C07 and C19 on the '
             'CUDA operations; non-trivial: distinct (case, device)',
        min_events={'gpu_launches': 2000, 'aggregations': 100,
                    'density_gradients': 60, 'rejections': 500}),
    'C25': dict(
        SIM, quick=120, thorough=2500, assumptions=OPS_ASSUME,
        rule='the same input through all operations on three devices and '
             'schedules; non-trivial: distinct (input shape, devices)',
        min_events={'gpu_launches': 5000, 'gpu_atomics': 10000,
                    'gpu_barriers': 1000, 'executions': 200}),
    'C26': dict(
        SIM, quick=280, thorough=5000, assumptions=OPS_ASSUME,
        rule='cases of C11-C13, C15-C19 and C21 on the CUDA operations; '
             'non-trivial: distinct (case, device)',
        min_events={'gpu_launches': 5000, 'layer_outputs': 3000,
                    'relations': 50, 'forward_passes': 20,
                    'derivatives': 50}),
})
