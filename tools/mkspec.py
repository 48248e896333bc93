"""Writes properties.jsonl and MANIFEST.json from one place.

usage: python3 tools/mkspec.py   (in /verif)
"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PC = 'pylib/pc/'
TESTS = ('The tests sample a handful of uniform clouds of one size, mostly '
         'with equally many points per element, unshuffled and in 3D. ')

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         observe=()):
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[
                    dict(name=n, where=w) for n, w in mech],
                    observe_at=list(observe)),
                technique=technique, note=note))


prop('C01', 'Point clouds keep every point in its batch element',
     'A PointCloud built from flat points with batch ids, from flat points '
     'with sizes, or from padded points with or without sizes holds exactly '
     'the given points of each batch element, in their given order: '
     'get_points by int or list index, get_sizes, the padded get_points and '
     'the padding and flattening of features all return them, zero padded, '
     'with empty elements included and padding rows ignored. Inconsistent '
     'input (wrong numbers of ids or dimensions, indices outside of the '
     'batch) is rejected.',
     ['inputs', 'configurations'],
     'all batch shapes, element sizes incl. empty elements, orders of the '
     'points, dimensions, padding contents and construction forms',
     TESTS + 'Empty elements, garbage in the padding, shuffled ids and '
     'batch shapes of several dimensions are hardly sampled.',
     [PC + 'PointCloud.py', PC + 'utils.py'],
     [('conversion to flat points and ids', PC + 'PointCloud.py '
       '_init_from_padded, _init_from_segmented'),
      ('padding', PC + 'PointCloud.py get_unflatten'),
      ('flattening of features', PC + 'utils.py _flatten_features')],
     'runtime monitoring of constructions and reads against a model of the '
     'batch', 'held on the executed random clouds; numpy model trusted',
     ['PointCloud.get_points', 'PointCloud.get_sizes',
      'PointCloud.get_unflatten'])
prop('C02', 'Queries of clouds and hierarchies do not depend on history',
     'The results of get_points, get_sizes, get_unflatten and of the '
     'bounding box of a PointCloud, and of get_points and get_sizes of a '
     'PointHierarchy, depend only on the points and on the latest batch '
     'shape set with set_batch_shape, never on which queries, with which '
     'arguments, came before. A batch shape that does not match the batch '
     'size is rejected and changes nothing.',
     ['histories'], 'all sequences of queries and set_batch_shape calls',
     'Values are cached inside of the clouds; tests make one or two queries '
     'on a fresh object.',
     [PC + 'PointCloud.py', PC + 'PointHierarchy.py'],
     [('cached sizes, bounding box', PC + 'PointCloud.py get_sizes, '
       'get_AABB'),
      ('batch shape', PC + 'PointCloud.py set_batch_shape'),
      ('levels', PC + 'PointHierarchy.py set_batch_shape')],
     'random histories on live objects checked step by step against a model '
     'object', 'held on the executed histories')
prop('C03', 'Bounding boxes are tight and diameters are their p-norms',
     'For every batch element with points, get_AABB of a PointCloud is the '
     'smallest axis aligned box that contains the points of that element, '
     'and only of that element. get_diameter is the p-norm of its extent, '
     'for the euclidean and every other supported norm, in the batch shape '
     'of the cloud.',
     ['inputs'], 'all clouds, orders, dimensions, norms and batch shapes',
     TESTS,
     [PC + 'PointCloud.py'],
     [('segment minima and maxima', PC + 'PointCloud.py _AABB')],
     'runtime monitoring of boxes against exact minima and maxima',
     'held on the executed random clouds; boxes of empty elements are not '
     'specified')
prop('C04', 'Grids order all points by cell and find each cell',
     'A Grid assigns every point to the cell of its batch element that '
     'contains it, with a different key for every cell and element, for '
     'grids of any size (more than 2^31 cells included) and points on the '
     'border of the box. The points of the grid are a permutation of the '
     'input sorted by key (descending) with matching batch ids and '
     'indices, and the fast access structure gives for every element and '
     'every column of cells (the first two dimensions) exactly the range '
     'of its points, an empty range where there are none.',
     ['inputs', 'configurations'],
     'all clouds, cell sizes (equal or per dimension), dimensions >= 2, '
     'numbers of cells',
     TESTS + 'Points on cell faces, large grids and dimensions above three '
     'are not sampled.',
     [PC + 'Grid.py', PC + 'custom_ops/custom_ops_tf.py'],
     [('keys', PC + 'custom_ops/custom_ops_tf.py compute_keys_tf'),
      ('fast access', PC + 'custom_ops/custom_ops_tf.py build_grid_ds_tf'),
      ('sorting', PC + 'Grid.py Grid')],
     'structural invariants of live grids checked against exact cell '
     'assignment', 'held on the executed random clouds; points within '
     'float32 rounding of a cell face may be in either cell')
prop('C05', 'Neighborhoods contain exactly the points in the radius',
     'A Neighborhood (grid cells at least as large as the radius) contains, '
     'for every center, each point of the same batch element within the '
     'radius (scaled per dimension) exactly once and no other point, also '
     'for centers outside of the bounding box, for duplicate points and '
     'for empty elements. The pairs are grouped by center and the neighbor '
     'ranges select exactly the pairs of each center.',
     ['inputs', 'configurations'],
     'all clouds, centers, per-dimension radii, dimensions, cell sizes',
     TESTS + 'Grid lookups fail at borders, in sparse columns or far from '
     'the box, which random uniform points do not reach.',
     [PC + 'Neighborhood.py', PC + 'custom_ops/custom_ops_tf.py'],
     [('cell lookup and distance filter',
       PC + 'custom_ops/custom_ops_tf.py find_neighbors_tf'),
      ('ids of the input', PC + 'Neighborhood.py Neighborhood')],
     'runtime monitoring of neighborhoods against brute force in float64',
     'held on the executed random clouds; pairs within float32 rounding of '
     'the radius may be decided either way')
prop('C06', 'All neighborhood queries agree, limits and transposes are exact',
     'The Neighborhood class, compute_neighborhoods and the searches with '
     'and without a grid return the same neighborhoods for the same query, '
     'with radii given as a scalar or per dimension. With max_neighbors = k > '
     '0 every center gets min(k, number of neighbors) distinct true '
     'neighbors with matching ranges, and transpose() is the converse '
     'relation: it groups the same pairs by the former neighbors.',
     ['inputs', 'configurations'],
     'all clouds, centers, radii, limits and entry points',
     TESTS + 'max_neighbors and transpose are not compared with references.',
     [PC + 'Neighborhood.py', PC + 'custom_ops/custom_ops_tf.py'],
     [('limit', PC + 'custom_ops/custom_ops_tf.py find_neighbors_tf'),
      ('transpose', PC + 'Neighborhood.py transpose'),
      ('no grid', PC + 'custom_ops/custom_ops_tf.py '
       'find_neighbors_no_grid')],
     'differential runtime monitoring of entry points, brute force oracle',
     'held on the executed random clouds')
prop('C07', 'Densities are the kernel density estimate of the element',
     'The density of each neighbor is the Gaussian kernel density estimate '
     'over the points of its batch element within the radius, in units of '
     'the radius, with the requested bandwidth (constant, or one over the '
     'square root of the number of points), or one without density '
     'estimation; with normalization it is divided by the number of '
     'neighbors of its center. compute_pdf, get_pdf, density_estimation '
     'and density_estimation_in_neighborhoods agree, and the latest '
     'compute_pdf counts.',
     ['inputs', 'histories', 'configurations'],
     'all clouds, centers, radii, bandwidths (scalar or per dimension), '
     'modes and orders of calls',
     TESTS + 'The tests use one bandwidth and equal input and output.',
     [PC + 'Neighborhood.py', PC + 'custom_ops/custom_ops_tf.py'],
     [('kernel sum', PC + 'custom_ops/custom_ops_tf.py compute_pdf_tf'),
      ('modes, normalization', PC + 'Neighborhood.py compute_pdf')],
     'runtime monitoring of densities against a float64 kernel sum',
     'held on the executed random clouds; normalize of density_estimation '
     'is not specified clearly and not checked')
prop('C08', 'Poisson disk samples are separated and cover the cloud',
     'Poisson disk sampling, through every entry point, returns distinct '
     'points of the input with their batch ids and, where requested, their '
     'indices in the input. Two samples of an element are further apart than '
     'the radius, every input point is within the radius of a sample of its '
     'element, and the sampling ends after at most as many draws as points.',
     ['inputs', 'schedules'],
     'all clouds, radii (scalar or per dimension) and random draws',
     TESTS + 'Tests check counts on one cloud.',
     [PC + 'sampling.py', PC + 'custom_ops/custom_ops_tf.py'],
     [('draw and remove', PC + 'custom_ops/custom_ops_tf.py sampling_tf'),
      ('entry points', PC + 'sampling.py')],
     'runtime monitoring of samples: separation, coverage, membership, '
     'counted draws', 'held on the executed random clouds and draws')
prop('C09', 'Cell average sampling returns one mean per occupied cell',
     'Cell average sampling, through every entry point, returns for every '
     'occupied grid cell of every batch element exactly one point, the mean '
     'of the points of that cell and element, with the batch id of the '
     'element. Elements without points get no samples.',
     ['inputs', 'configurations'],
     'all clouds, cell sizes (scalar or per dimension) and dimensions',
     TESTS,
     [PC + 'sampling.py', PC + 'custom_ops/custom_ops_tf.py'],
     [('cell means', PC + 'custom_ops/custom_ops_tf.py sampling_tf'),
      ('entry points', PC + 'sampling.py')],
     'runtime monitoring of samples against exact cell means',
     'held on the executed random clouds')
prop('C10', 'Point hierarchies are chains of samplings with neighborhoods',
     'Level i+1 of a PointHierarchy is a sampling (Poisson disk or cell '
     'average) of level i with the i-th cell size, a too short list of cell '
     'sizes being continued with its last value, and every level has the '
     'batch shape of the input. get_neighborhood(i) contains exactly the '
     'pairs of points of level i within the cell size of points of level '
     'i+1, transposed on request; get_points, get_sizes, indexing and the '
     'length list all levels.',
     ['inputs', 'configurations'],
     'all clouds, levels, cell sizes in all forms, both modes, batch shapes',
     TESTS + 'Neighborhoods of hierarchies are not compared with references.',
     [PC + 'PointHierarchy.py'],
     [('sampling of levels', PC + 'PointHierarchy.py PointHierarchy'),
      ('neighborhoods', PC + 'PointHierarchy.py get_neighborhood')],
     'runtime monitoring of hierarchies against sampling and brute force '
     'oracles', 'held on the executed random clouds')
LAYER = ('Layer tests check shapes and equality of two calls, not values '
         'against a reference on clouds with sparse or empty neighborhoods.')
prop('C11', 'MCConv computes the Monte-Carlo convolution',
     'For every output point MCConv returns the sum over the neighbors in '
     'the radius of features times the kernel MLPs at the offset divided by '
     'the radius, divided by the density of the neighbor, multiplied by the '
     'output weights; without neighbors it is zero. The bandwidth, the '
     'activation, the numbers of MLPs and layers, and given neighborhoods '
     'with or without densities are honoured, the aggregation of features '
     'over neighborhoods is the exact sum, and wrong feature sizes are '
     'rejected.',
     ['inputs', 'configurations'],
     'all clouds, output points, radii, features, weights, configurations',
     LAYER,
     [PC + 'layers/MCConv.py', PC + 'custom_ops/custom_ops_tf.py'],
     [('convolution', PC + 'layers/MCConv.py _monte_carlo_conv'),
      ('aggregation', PC + 'custom_ops/custom_ops_tf.py basis_proj_tf')],
     'runtime monitoring of layer outputs against a float64 reference',
     'held on the executed random inputs within rounding tolerances that '
     'follow from the magnitudes')
prop('C12', 'PointConv computes the density-reweighted convolution',
     'For every output point PointConv returns the sum over the neighbors '
     'in the radius of features times the kernel MLP at the offset, divided '
     'by the transformed density of the neighbor relative to the largest in '
     'the neighborhood, multiplied by the output weights; without neighbors '
     'it is zero. Bandwidth, activation, hidden size and given '
     'neighborhoods with or without densities are honoured.',
     ['inputs', 'configurations'],
     'all clouds, output points, radii, features, weights, configurations',
     LAYER, [PC + 'layers/PointConv.py'],
     [('convolution', PC + 'layers/PointConv.py _point_conv')],
     'runtime monitoring of layer outputs against a float64 reference',
     'held on the executed random inputs; densities transformed to almost '
     'zero are skipped as ill-conditioned')
prop('C13', 'KPConv computes rigid and deformable kernel point convolutions',
     'For every output point KPConv returns the sum over neighbors and '
     'kernel points of features times the linear or gaussian influence of '
     'the distance to the kernel point (in units of the radius, at 0.75 of '
     'the given kernel points) times the weights of that kernel point; '
     'without neighbors it is zero. Deformable kernel points are shifted by '
     'the offsets that a rigid convolution of the same input computes, and '
     'the regularization loss is the sum of the fitting and the repulsive '
     'loss of the latest call.',
     ['inputs', 'histories', 'configurations'],
     'all clouds, radii, influence distances, kernel points (5 to 64, '
     'spherical or custom), weights and orders of calls',
     LAYER, [PC + 'layers/KPConv.py'],
     [('convolution', PC + 'layers/KPConv.py _kp_conv'),
      ('offsets', PC + 'layers/KPConv.py _kernel_offsets'),
      ('loss', PC + 'layers/KPConv.py regularization_loss')],
     'runtime monitoring of layer outputs and losses against a float64 '
     'reference', 'held on the executed random inputs')
prop('C14', 'Kernel points have the documented geometry, rotations are rigid',
     'spherical_kernel_points returns the requested number of kernel points '
     'in the unit sphere, the first in the center and the others in the '
     'disposition of the KPConv paper (tetrahedron, octahedron, '
     'icosahedron, poles and staggered regular hexagons, poles and '
     'pentagons), balanced and apart from each other, and rejects other '
     'sizes. A random rotation is rigid and keeps orientation, lengths and '
     'angles; cube_kernel_points is the regular lattice of the unit cube.',
     ['inputs', 'schedules'], 'all sizes and random rotations',
     'No test looks at the positions.',
     [PC + 'layers/utils.py'],
     [('dispositions', PC + 'layers/utils.py spherical_kernel_points'),
      ('rotation', PC + 'layers/utils.py random_rotation'),
      ('cube', PC + 'layers/utils.py cube_kernel_points')],
     'runtime monitoring of point sets: geometric invariants',
     'held on the executed random rotations and all sizes')
prop('C15', 'Pooling reduces exactly the features of element or neighborhood',
     'GlobalMaxPooling and GlobalAveragePooling return for every batch '
     'element with points the maximum or mean of the features of exactly its '
     'points, in the type of the features and, if requested, in the batch '
     'shape. MaxPooling and AveragePooling return for every output point '
     'with neighbors the maximum or mean of the features of exactly the '
     'input points of its element within the radius (a scalar or one per '
     'dimension).',
     ['inputs', 'configurations'],
     'all clouds, batch shapes, radii, features, layouts',
     TESTS, [PC + 'layers/Pooling.py'],
     [('segments', PC + 'layers/Pooling.py')],
     'runtime monitoring of pooled features against exact reductions',
     'held on the executed random inputs; pools of nothing are not '
     'specified')
prop('C16', 'All layers agree on flat, sorted and padded layouts',
     'For every layer and ResNet block, features given padded (whatever the '
     'padding contains) give the result of the same features given flat. '
     'With return_sorted the rows are those of the flat result sorted by '
     'batch id in stable order, and with return_padded they are in the '
     'batch shape of the output cloud, zero padded; Conv1x1 is the affine '
     'map of each point.',
     ['inputs', 'configurations'],
     'all clouds, construction forms, orders of ids, batch shapes, layers '
     'and layouts',
     'Layout options are tested by shape for some layers.',
     [PC + 'layers/utils.py', PC + 'utils.py', PC + 'layers/Conv1x1.py',
      PC + 'layers/MCConv.py', PC + 'layers/KPConv.py',
      PC + 'layers/PointConv.py', PC + 'layers/Pooling.py'],
     [('output layout', PC + 'layers/utils.py _format_output'),
      ('input layout', PC + 'utils.py _flatten_features')],
     'differential runtime monitoring between layouts',
     'held on the executed random inputs')
prop('C17', 'Layers respect order, batch, position, scale and linearity',
     'Permuting input points with their features leaves the output of '
     'convolutions and local pooling unchanged, and permuting output points '
     'permutes it. The output of a batch element depends only on that '
     'element (whatever the other elements contain, or on its own), and is '
     'unchanged when the element is translated or, except for PointConv, '
     'when points and radius are scaled together. Convolutions and average '
     'pooling are linear in the features, except for deformable kernels.',
     ['inputs', 'configurations'],
     'all clouds, permutations, translations, scales, other elements',
     'No test relates two executions this way.',
     [PC + 'layers/MCConv.py', PC + 'layers/KPConv.py',
      PC + 'layers/PointConv.py', PC + 'layers/Pooling.py',
      PC + 'Grid.py', PC + 'Neighborhood.py'],
     [('grid per element', PC + 'Grid.py'),
      ('relative offsets', PC + 'layers')],
     'metamorphic runtime monitoring of pairs of executions',
     'held on the executed pairs; coordinates are exactly representable so '
     'that no neighbor changes sides')
prop('C18', 'ResNet blocks are the documented composition of their layers',
     'Each of the three ResNet modules applies, block after block, batch '
     'normalization, activation and its convolutions (two on the cloud; 1x1 '
     'down, one convolution, 1x1 up; convolutions to, on and from the '
     'downsampled cloud) and adds the input, projected if requested. The '
     'layer type, activation, radii, given or own neighborhoods and output '
     'layout are honoured, batch statistics are used and accumulated in '
     'training and accumulated statistics otherwise.',
     ['inputs', 'histories', 'configurations'],
     'all clouds, block types, layer types, numbers of blocks, states of the '
     'normalization',
     'Tests check the shape of the result.',
     [PC + 'layers/network_blocks.py'],
     [('blocks', PC + 'layers/network_blocks.py')],
     'runtime monitoring of outputs and normalization state against a '
     'float64 composition', 'held on the executed random inputs; tolerances '
     'from measured conditioning')
prop('C19', 'Gradients are the derivatives of the computed functions',
     'The gradients of convolutions, 1x1 convolutions, pooling, densities '
     'and of the regularization loss with respect to features, weights and '
     'point coordinates are finite and equal the derivatives of the '
     'functions these operations compute, wherever those are '
     'differentiable.',
     ['inputs', 'configurations'],
     'all clouds (duplicate points and points that are their own neighbors '
     'included), weights, directions',
     'Gradients are tested for two operations on uniform clouds.',
     [PC + 'custom_ops/custom_ops_tf.py', PC + 'layers/MCConv.py',
      PC + 'layers/KPConv.py', PC + 'layers/PointConv.py',
      PC + 'layers/Pooling.py'],
     [('differentiable formulas', PC + 'custom_ops/custom_ops_tf.py'),
      ('distances', PC + 'layers/KPConv.py')],
     'runtime monitoring of gradients against central differences of '
     'float64 references', 'held on the executed random directions; kinks '
     'are detected and skipped')
prop('C20', 'Loaders return the contents of the files, zero padded in batches',
     'Loading a point file returns every line once, the first columns as '
     'points and the others as features, for every delimiter, dimension, '
     'number of features and type, with or without a newline at the end, '
     'and at most the requested number of lines. A batch of files or meshes '
     'is the stack of its files, zero padded to the largest, with the '
     'number of points of each file, in the requested batch shape; missing '
     'files, names of other types and batch shapes of another size are '
     'rejected.',
     ['inputs', 'configurations'],
     'all files, delimiters, number formats, batch shapes',
     'There are no tests of the loaders in the repository.',
     ['pylib/io/points.py'],
     [('parsing', 'pylib/io/points.py load_points_from_file_to_tensor, '
       'load_points_from_file_to_numpy'),
      ('padding', 'pylib/io/points.py load_batch_of_points, '
       'load_batch_of_meshes')],
     'runtime monitoring of loaded tensors against the written values',
     'held on the executed random files; the third party mesh reader is '
     'replaced by a stand-in')
prop('C21', 'Graph mode gives the results of eager execution',
     'Building clouds, grids, neighborhoods, densities, samplings and '
     'hierarchies, and all layers, work inside of tf.function, with unknown '
     'numbers of points in the signature too, and return what eager '
     'execution returns, call after call of the same traced function. '
     'Poisson disk sampling returns a valid sampling.',
     ['inputs', 'programs', 'histories'],
     'all pipelines of the listed operations, clouds and orders of calls of '
     'one traced function',
     'Tests run eagerly.',
     [PC + 'PointCloud.py', PC + 'Grid.py', PC + 'Neighborhood.py',
      PC + 'sampling.py', PC + 'layers/KPConv.py',
      PC + 'custom_ops/custom_ops_tf.py'],
     [('graph compatible control flow', PC + 'custom_ops/custom_ops_tf.py'),
      ('dynamic shapes', PC + 'PointCloud.py')],
     'differential runtime monitoring of traced and eager execution',
     'held on the executed pipelines and clouds')

NOT_APPLICABLE = []
NOTES = ('bin/check <id> [quick|thorough] runs random cases of one property '
         'in eight worker processes against the code in /repo; the decision '
         'is made by oracles in vf/props, vf/oracle.py and vf/mon.py.')


def main():
  exec(open(os.path.join(ROOT, 'tools', 'mkspec_ops.py')).read(), globals()) \
      if os.path.exists(os.path.join(ROOT, 'tools', 'mkspec_ops.py')) else None
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
      f.write(json.dumps({k: v for k, v in p.items()
                          if k not in ('technique', 'note')}) + '\n')
      assert len(p['title']) <= 80, p['id']
      n = p['statement'].count('. ') + 1
      assert n <= 3, (p['id'], n)
  claimed = [p for p in P if p['id'] not in {
      n['property'] for n in NOT_APPLICABLE}]
  m = dict(version=1, setup_cmd='bin/setup',
           checks=[dict(property=p['id'],
                        quick_cmd=f"bin/check {p['id']} quick",
                        thorough_cmd=f"bin/check {p['id']} thorough",
                        evidence_file=f"evidence/{p['id']}.json",
                        technique=p['technique'], level='exploration',
                        level_note=p['note']) for p in claimed],
           not_applicable=NOT_APPLICABLE, notes=NOTES)
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


main()
