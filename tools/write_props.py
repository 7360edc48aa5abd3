#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the lines stay valid JSON)."""
import json, os
M = 'src/cvi/modules/'
BASE = M + '_base.py'
ALLM = [M + x + '.py' for x in ('CH', 'cSIL', 'DB', 'GD43', 'GD53', 'PS', 'rCIP', 'WB', 'XB')]
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=('return value of get_cvi', 'criterion_value')):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


prop('C01', 'Streaming a data set gives the same index value as evaluating it in batch',
     'For each of the nine indices, after feeding any labelled samples one at a time to a fresh object, the value returned for the last sample is the value a second fresh object returns for exactly those samples and labels in one batch call. '
     'This holds after every prefix of the stream that contains at least two clusters, wherever the index is mathematically defined, up to rounding errors.',
     ['inputs', 'histories'], 'all real-valued samples; all label sequences (every arrival order, every return to an earlier cluster); every index; every prefix',
     'The tests compare the two modes on three fixed CSV files with a tolerance of 1000, so they accept almost any number; the guarantee is over every data set and arrival order.',
     ALLM + [BASE], [('incremental recursions of each index', '_param_inc in every module'), ('batch formulas of each index', '_param_batch in every module'), ('criterion', '_evaluate in every module')])
DEF = 'the tests only require the value to lie within 1000 of the reference on three fixed data sets'
prop('C02', 'CH, WB and XB return the published index, in both modes',
     'Calinski-Harabasz returns [between-cluster scatter / (k-1)] / [within-cluster scatter / (N-k)], WB returns k times the within-cluster scatter over the between-cluster scatter, and Xie-Beni returns the within-cluster scatter over N times the smallest squared distance between two centroids. '
     'Scatter is in squared Euclidean distances, to the own centroid (within) and from the size-weighted centroids to the overall mean (between); the statement holds in both modes, for every prefix of a stream, wherever the denominator is not zero, up to rounding errors.',
     ['inputs', 'histories'], 'all real samples, all label sequences, both modes, every prefix', DEF,
     [M + 'CH.py', M + 'WB.py', M + 'XB.py', BASE], [('compactness and separation recursions', '_param_inc'), ('criterion', '_evaluate')])
prop('C03', 'DB, GD43 and GD53 return the published index, in both modes',
     'With s_i the mean squared distance of cluster i to its centroid: Davies-Bouldin is the mean over i of the largest (s_i+s_j)/|v_i-v_j|^2; generalised Dunn 43 is the smallest centroid distance over twice the largest s_i; generalised Dunn 53 is the smallest size-weighted mean of s_i and s_j over a pair of clusters, over twice the largest s_i. '
     'This holds in both modes, for every prefix of a stream, wherever the denominators are not zero, up to rounding errors.',
     ['inputs', 'histories'], 'all real samples, all label sequences, both modes, every prefix', DEF,
     [M + 'DB.py', M + 'GD43.py', M + 'GD53.py', BASE], [('distance matrix updates on new and existing clusters', '_param_inc'), ('criterion', '_evaluate')])
prop('C04', 'Centroid silhouette and partition separation return the published index',
     'The centroid-based silhouette is the mean over clusters of (b-a)/max(a,b), where a is the mean squared distance of a cluster\'s samples to its own centroid and b the smallest, over the other clusters, mean squared distance of that other cluster\'s samples to the same centroid. '
     'Partition separation is the sum over clusters of n_i/max n minus exp(-(smallest squared distance to another centroid)/beta), with beta the mean squared distance of the centroids to their plain mean. '
     'Both hold in both modes and for every prefix of a stream, wherever the denominators are not zero, up to rounding errors.',
     ['inputs', 'histories'], 'all real samples, all label sequences, both modes, every prefix', DEF,
     [M + 'cSIL.py', M + 'PS.py', BASE], [('cluster-to-centroid mean distances', 'cSIL._param_inc'), ('separation terms', 'PS._evaluate')])
prop('C05', 'rCIP returns the representative cross information potential',
     'The value is the sum over pairs of clusters of the Gaussian kernel exp(-u\'S^-1u/2)/sqrt((2 pi)^d det S), where u is the difference of the two centroids and S the sum of the two regularised sample covariance matrices (unbiased estimate plus 10^(-12/d) on the diagonal; the regulariser alone for a single sample). '
     'This holds in both modes, for every prefix of a stream, up to rounding errors.',
     ['inputs', 'histories'], 'all real samples, all label sequences, both modes, every prefix', DEF,
     [M + 'rCIP.py', BASE], [('recursive covariance', 'rCIP._param_inc'), ('kernel', 'rCIP._evaluate')])
prop('C07', 'Only which samples share a label matters, not what the labels are',
     'Renaming the labels one-to-one to any other integers (negative, huge, with gaps, in any order, of any integer type) changes no value, in streaming or batch mode.',
     ['inputs', 'histories'], 'all integer labels of 8 to 64 bits, any order of first appearance, all samples, both modes',
     'The tests relabel the data to 0,1,2,... before using it, so no other label is ever given.',
     [BASE] + ALLM, [('label remapping', 'LabelMap.get_internal_label in _base.py'), ('grouping by label in batch mode', '_param_batch')], [('label map', 'external to internal labels', '_base.py')])
prop('C08', 'The order in which samples are presented does not matter',
     'Presenting the same labelled samples in any other order, as a stream or as rows of a batch, gives the same final value, up to rounding errors.',
     ['inputs', 'schedules'], 'all samples, all permutations of the stream or of the rows, every index',
     'The tests feed each data set in a single fixed order.', ALLM + [BASE], [('recursions insensitive to arrival order', '_param_inc'), ('grouping', '_param_batch')])
prop('C09', 'Values follow the geometry: moved, mirrored, rotated or rescaled data',
     'Translating all samples, reordering or negating features, or rotating the feature space changes no index value. Multiplying all samples by a positive factor leaves every index unchanged except generalised Dunn 43, which is divided by the factor, and rCIP, for which nothing is claimed under scaling. All of this is up to rounding errors.',
     ['inputs'], 'all samples, all offsets, all rotations of a coordinate plane, all positive factors, both modes',
     'No test transforms its data.', ALLM, [('all formulas depend on differences and distances only', '_param_inc, _param_batch, _evaluate')])
prop('C10', 'Values stay in the range of their index; one cluster gives zero',
     'In a stream, the value is 0 as long as all samples have the same label. With two or more clusters, wherever the index is defined, CH, WB, XB, DB, GD43 and rCIP are never negative, the silhouette lies in [-1, 1], GD53 lies in [0, 1/2], and partition separation lies between sum(n_i/max n) - k and k.',
     ['inputs', 'histories'], 'all samples, all label sequences, both modes', 'Ranges are never asserted by the tests.',
     ALLM, [('criterion', '_evaluate')])
prop('C11', 'Caller\'s arrays are neither modified nor remembered',
     'No call changes the arrays passed to it, and nothing the caller later writes into those arrays changes any earlier or later value; in particular one buffer may be refilled and passed for every sample of a stream. A value once returned does not change later.',
     ['inputs', 'histories'], 'all samples, all label sequences, every value written into the arrays between calls',
     'The tests pass rows of an array that is never written again.', ALLM + [BASE], [('copies taken of the first sample', '_setup and _param_inc')])
prop('C12', 'Objects are independent under every interleaving of their calls',
     'Any number of index objects, of the same or of different kinds, created at any time and fed in any interleaving, return exactly what each would return alone.',
     ['schedules', 'inputs'], 'every interleaving of the calls on two objects, including creation of one while the other is in use; all samples',
     'The tests use one object at a time, from start to end.', [BASE] + ALLM, [('all state is per object', '__init__ in _base.py and every module')])
prop('C13', 'Calls are dispatched by shape and mode; refused calls change nothing',
     'A 1-D array is one streamed sample and a 2-D array is a whole batch. A batch on an object that already has data, a sample after a batch, a batch with fewer than two distinct labels and an array with any other number of axes raise ValueError (an empty batch: any exception); a refused call leaves the object as it was, so the reported value and all later results are unaffected.',
     ['histories', 'inputs'], 'sequences of accepted and refused calls on one object, all samples',
     'One test makes one refused call and drops the object afterwards.', [BASE], [('mode check and dispatch', 'CVI.get_cvi and helpers in _base.py')])
prop('C14', 'Integer samples of any width count at their mathematical value',
     'Samples given as integers of any signed or unsigned type give the value that the same numbers give as floating point, in both modes, with no wrap-around or truncation.',
     ['inputs'], 'all values of int8 to int64 and uint8 to uint32 samples', 'The tests only pass floating-point data.',
     [BASE] + ALLM, [('conversion on entry', 'CVI.get_cvi in _base.py')])
prop('C15', 'Streaming uses memory that does not grow with the number of samples',
     'What an object (with its class and package) stores depends on the numbers of clusters and features only: once every cluster has been visited, further samples of known clusters do not increase it.',
     ['histories', 'inputs'], 'streams of any length over a fixed set of clusters, all samples',
     'The tests never look at what is stored.', ALLM + [BASE], [('sufficient statistics instead of samples', '_param_inc')], observe=('numbers reachable from the object',))
prop('C16', 'Degenerate data never raise and never spoil later values',
     'Coinciding samples, constant features, clusters of one sample, coinciding centroids and prefixes in which all samples are equal never make a call raise; as soon as the index is defined on the data seen so far, the value is the one given by its definition, whatever came before.',
     ['inputs', 'histories'], 'all samples constrained to coincide in given patterns, all label sequences, both modes',
     'The test data contain no coinciding samples.', ALLM, [('guards against zero denominators', '_evaluate')])

V0 = 'src/cvi/compat/v0.py'
prop('C17', 'Legacy iXB, iCH and iPS give the index of the samples seen so far',
     'After every update of the legacy (compat) indices iXB, iCH and iPS, made directly or by iCVI, with clusters numbered by first appearance, the returned and the stored value is the published Xie-Beni, Calinski-Harabasz or partition separation index of the samples seen so far wherever it is defined (0 for one cluster), and the stored sizes and centroids are those of the clusters. A cluster number that skips ahead raises ValueError and changes nothing; integer samples count at their value; arrays passed in are neither changed nor remembered.',
     ['inputs', 'histories'], 'all samples, all label sequences numbered by first appearance, refused updates in between, reused buffers',
     'No test imports the legacy module.', [V0], [('updates', 'iXB.update, iCH.update, iPS.update'), ('recursions', 'CP_update, cluster_center_update'), ('factory', 'iCVI')])
prop('C18', 'Legacy clusters and update recursions are exact',
     'A legacy Cluster has as length, centre and (with box) bounding box those of the points added to it, tells of a complement-coded point whether it lies in the box, and has as smallest, average and centre distance of a query point those in the 1-, 2- or maximum norm; Clusters.from_list puts every point into the cluster of its number; cluster_center_update and CP_update, applied from the first sample of a cluster on, give its size, mean and sum of squared distances to the mean; norm22 is the squared Euclidean norm. Arrays passed in are neither changed nor remembered.',
     ['inputs', 'histories'], 'all points and query points, all numbers of points', 'No test imports the legacy module.',
     [V0], [('clusters', 'Cluster, Clusters'), ('recursions', 'CP_update, cluster_center_update, norm22')], observe=('attributes and return values',))
prop('C19', 'Samples that do not fit are refused and change nothing',
     'A streamed sample whose number of features differs from that of the samples before it, with a known or a new label, and a batch whose number of labels differs from its number of rows raise ValueError and leave the object as it was: the reported value and all later results are as if the call had not been made.',
     ['inputs', 'histories'], 'all samples, lengths above and below the right one, at every place of a stream, any label',
     'No test passes arrays that do not fit.', [BASE], [('checks on entry', 'CVI.get_cvi in _base.py')])
prop('C20', 'A copied or pickled and restored object continues like the original',
     'Copying an object with copy.deepcopy, or pickling and restoring it, at any point (new, in mid-stream or after a batch) gives an object that reports the same value and continues exactly as the original would; from then on neither influences the other.',
     ['histories', 'inputs'], 'every point of a stream, both modes, pickle protocols 2 to 5, all samples before and after',
     'No test copies or saves an object.', [BASE] + ALLM, [('all state is plain data owned by the object', '__init__, _setup and _param_inc')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
