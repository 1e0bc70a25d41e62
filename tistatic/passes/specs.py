"""The properties: statement, quantifier, anchors, and the pass that decides each."""
PROPS = {}
ALLSRC = "torchimage/"


def prop(id, title, pas, statement, over, qtext, why, files, mech, explain, floor=1, level="other", note="", technique="", assume=()):
    PROPS[id] = dict(id=id, title=title, level=level, explain=E0 + explain, floor=floor, assume=list(assume) + BASE_ASSUME,
                     statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, technique=technique)
    PROPS[id]["pass"] = pas


E0 = ("Abstract interpretation of the package's syntax tree into value-dependence graphs: one interpreted call per catalog entry, with "
      "symbolic tensors, ranks, axes, sizes and parameters; branches joined under their conditions, loops by fixpoint; nothing is executed. ")
BASE_ASSUME = ["the models of the torch/numpy/stdlib operations the package calls (tistatic/models.py, extmodels.py) are right",
               "integers and reals are exact: rounding, overflow and memory limits are outside the analysis"]

prop("C01", "The caller's tensors and containers are never modified", "effects:c01",
     "Padding, pooling, filtering, metric, colour-filter-array, noise, cropping and utility calls never write to a tensor, list or "
     "other container passed in by the caller, neither directly nor through a view or alias of it.",
     ["inputs", "configurations"],
     "every public operation, every tensor rank, shape, axis choice and parameter setting of the catalog, including zero padding width "
     "and other early exits that return the input itself",
     "the tests compare return values on a few shapes and never look at the inputs afterwards, and aliasing only appears for "
     "particular settings (zero pad width, empty kernels, p=1, threshold>0)",
     ["torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/filtering/edges.py", "torchimage/random.py",
      "torchimage/misc/polynomial.py", "torchimage/misc/power.py"],
     [("padding copies the input into a fresh tensor before filling in place", "torchimage/padding/generic_pad.py Padder.forward"),
      ("in-place steps act on temporaries only", "torchimage/random.py, torchimage/misc/polynomial.py, torchimage/filtering/sharpen.py")],
     "Obligation per call: no write event (indexed assignment, in-place operator or method, container mutation, user callback) reaches an "
     "object owned by the caller, directly or through an alias or view.", floor=200,
     technique="ownership/alias effect analysis over abstract interpretation of the syntax tree",
     note="May-write analysis: an ownership-tagged heap with view/alias edges; every write on any path is reported. Trusts the view/copy "
          "classification of torch operations in the models.")

prop("C02", "Operations run on the device of their input", "effects:c02",
     "Every operation that returns a tensor returns it on the device of the input tensors, and never combines input data with a tensor "
     "that was created on the default or on a hard-coded device, nor moves input data off its device.",
     ["inputs", "configurations"], "every public operation and parameter setting of the catalog, any device",
     "the tests run on the CPU, where the default device, a hard-coded 'cpu' and the input's device are the same",
     ["torchimage/padding/pad_1d.py", "torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/shapes/conv_like.py",
      "torchimage/cfa/utils/rgb_to_bayer.py", "torchimage/random.py"],
     [("buffers and kernels are created with device=x.device", "Padder.forward, smooth_1d, linear_ramp_1d, move_tensor, bayer_4c_to_1c, rgb_to_1c_bayer")],
     "Obligation per call: the device provenance of every returned tensor is the input's, no operation mixes input data with a tensor of "
     "default/hard-coded device (0-d scalars excepted), no host transfer of input data.", floor=200,
     technique="device-provenance (taint) dataflow on interpreted value-dependence graphs",
     note="Decides provenance, not availability of a device. Index tensors and python scalars are exempt, as torch allows them.")

prop("C03", "Results keep the floating point type of the input", "effects:c03",
     "For floating point inputs every returned tensor has the input's dtype, and the computation neither mixes input data with tensors of "
     "default or hard-coded dtype nor rounds it through another dtype on the way.",
     ["inputs", "configurations"], "every public operation and parameter setting of the catalog, any floating point dtype",
     "the tests use the default dtype (or one other) only, where a missing or hard-coded dtype is invisible",
     ["torchimage/padding/pad_1d.py", "torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/shapes/conv_like.py",
      "torchimage/cfa/utils/bayer_1c_4c.py", "torchimage/random.py"],
     [("buffers and kernels are created with dtype=x.dtype", "Padder.forward, smooth_1d, linear_ramp_1d, move_tensor, n_original_elements_nd, rgb_to_1c_bayer")],
     "Obligation per call: the dtype provenance of every returned tensor is the input's and no operation on input data involves a tensor of "
     "default or fixed dtype.", floor=200,
     technique="dtype-provenance (taint) dataflow on interpreted value-dependence graphs",
     note="Statistics returned as python numbers are exempt. Integer inputs are outside the property.")

prop("C04", "Gradients flow from every result to every input image", "effects:c04",
     "The result of every padding, pooling, filtering, metric, colour-filter-array, noise, cropping and utility operation depends on each "
     "input image through differentiable tensor operations only: input values are never detached, converted to python or numpy numbers, "
     "or processed with gradients disabled on their way to the result.",
     ["inputs", "configurations"], "every public operation and parameter setting of the catalog except describe() and constant polynomials",
     "no test calls backward(), and a cut gradient leaves every output value unchanged",
     ["torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/metrics/ssim.py", "torchimage/filtering/edges.py"],
     [("differentiable copies and slices instead of .data/.numpy()", "torchimage/padding/pad_1d.py, torchimage/cfa"),
      ("only kernels are detached", "torchimage/pooling/base.py move_tensor")],
     "Obligation per call: every image input reaches the result along value edges, and no value edge carrying input data passes a "
     "gradient cut (detach, no_grad, item, tolist, numpy, torch.tensor, rounding).", floor=200,
     technique="gradient-cut reachability on interpreted value-dependence graphs",
     note="Graph connectivity, not gradient values. Conditions, shapes, masks and random draws are not value edges.")

prop("C05", "Randomness only where documented, and only from the caller's generator", "effects:c05",
     "Only the noise functions and the random crop draw random numbers, each draw uses the generator given by the caller, and nothing "
     "seeds, saves or restores generator state; every other operation is deterministic.",
     ["inputs", "configurations", "histories"], "every public operation and parameter setting of the catalog, any state of the global generators",
     "a test with a fixed seed cannot tell the caller's generator from the global one, and there are no tests of the random functions",
     ["torchimage/random.py"],
     [("generator passed to every draw", "torchimage/random.py random_crop, add_poisson_gauss_noise, add_gauss_noise")],
     "Obligation per call: every random-draw effect happens in a random function and its generator operand is the caller's argument.", floor=200,
     technique="effect analysis (random draws with their generator operand) over abstract interpretation",
     note="Library-internal draws (parameter initialisation of nn modules in constructors) count as setup and are exempt.")

prop("C06", "Calls do not depend on earlier calls", "effects:c06",
     "The result of a call, and whether it raises, depends only on its arguments and on how its object was constructed: it is the same "
     "after any earlier call with other inputs, shapes and axes on the same object or on another object of the package.",
     ["histories", "inputs", "configurations"], "every public operation of the catalog, called after an arbitrary earlier call of the same operation",
     "the tests build a fresh object per call, or call twice with the same shapes, so retained padding widths, kernels or buffers are not noticed",
     ["torchimage/pooling/base.py", "torchimage/padding/generic_pad.py", "torchimage/metrics/ssim.py", "torchimage/filtering/edges.py"],
     [("same padding is recomputed on every forward pass", "torchimage/pooling/base.py BasePoolNd.pad"),
      ("kernels are converted per call and not retained", "torchimage/pooling/base.py SeparablePoolNd.forward")],
     "Obligation per call: the value graph (including loop definitions) of a call interpreted after an arbitrary symbolic call on the same object, "
     "and on a sibling object, is identical to the one interpreted in a fresh state.", floor=200,
     technique="value-graph equivalence of a call after a symbolic history and in a fresh state",
     note="One arbitrary earlier successful call with independent symbolic arguments; by induction over calls when the retained state is a "
          "function of the last call. Earlier calls that raised half-way are not covered.")

prop("C08", "Padding keeps the original content in place and fills every other cell", "padding:c08",
     "Padder.forward and Padder.pad_axis return a tensor whose length along each padded axis is before + length + after (one more in "
     "periodize mode for odd lengths) and is unchanged along every other axis; the original values sit unchanged at offset before; and, "
     "except in mode 'empty', every padded cell is computed from original values and parameters only, never from memory that was not written.",
     ["inputs", "configurations"],
     "every padding mode, any input length, any non-negative pad width before and after (including wider than the input), one or two "
     "padded axes of a tensor of any rank, in either order of axes",
     "the tests compare with numpy for a few shapes and pad widths; unwritten memory often happens to hold zeros, and the cells concerned "
     "depend on how pad width, length and chunking interact",
     ["torchimage/padding/generic_pad.py", "torchimage/padding/pad_1d.py", "torchimage/padding/utils.py"],
     [("fresh tensor, original copied to y[idx], ground-truth region grows axis by axis", "torchimage/padding/generic_pad.py Padder.forward, _fill_value_1d"),
      ("loops advance a frontier until both ends are filled", "torchimage/padding/pad_1d.py circular_1d, symmetric_1d, reflect_1d, odd_*_1d")],
     "Obligation per mode and call: the access relation of the result (symbolic output index, lengths and pad widths) maps the centre to the "
     "original cell with the same offset and every other cell to initialised cells; filling loops by inductive frontier invariants.", floor=60,
     technique="polyhedral access-relation dataflow with inductive loop invariants (linear inequalities and congruences)",
     note="Proof by invariant; a failed proof is reported as a violation only with a concrete disagreement of the extracted relation, otherwise "
          "as undecided. Three or more padded axes follow from the one-axis step and are not enumerated.")

prop("C09", "Padding modes follow their documented extension at every pad width", "padding:c09",
     "Along each padded axis the padded cells hold the extension of the signal documented for the mode, at any distance from the signal: "
     "constant/zeros the configured values, replicate the edge value, circular the period L, periodize the period of the signal completed to "
     "even length, symmetric and antisymmetric the half-sample mirror (negated per mirror), reflect the whole-sample mirror, odd_reflect and "
     "odd_symmetric the point reflections at the current edge, smooth the linear extrapolation of the last two values, linear_ramp the "
     "straight line to the end value, maximum/mean/median/minimum the statistic of the whole axis or of the stat_length edge values "
     "(clipped to 1..L); axes are extended one after the other in the given order.",
     ["inputs", "configurations"],
     "every mode, any input length L >= 1, any pad widths (including several times the length), symbolic constant/end/stat parameters, one or "
     "two padded axes in either order",
     "the tests sample a few widths against numpy, mostly shorter than the signal; wrap-around cases need particular relations between "
     "length, pad width and chunk, and antisymmetric/odd/periodize modes have no numpy counterpart",
     ["torchimage/padding/pad_1d.py", "torchimage/padding/generic_pad.py"],
     [("chunks of at most the signal length, alternately flipped", "torchimage/padding/pad_1d.py symmetric_1d, reflect_1d, circular_1d"),
      ("extension beyond the padded part uses the part padded so far", "torchimage/padding/pad_1d.py odd_reflect_1d, odd_symmetric_1d"),
      ("parameter pair (before, after) of the axis", "torchimage/padding/generic_pad.py Padder._fill_value_1d")],
     "Obligation per mode and call: every piece of the access relation equals the documented extension, modulo its translation/reflection "
     "group for the periodic modes and as polynomial identity for the others.", floor=60,
     technique="polyhedral access-relation dataflow with inductive loop invariants (linear inequalities and congruences)",
     note="Real arithmetic. A failed proof is reported as a violation only with a concrete disagreement of the extracted relation, otherwise "
          "as undecided. 'empty' leaves padded cells unspecified.")

FUN_TECH = "abstract interpretation to value-dependence graphs, polyhedral access relations, normal-form equality with an interpreted reference definition"
FUN_NOTE = ("Real arithmetic. A failed equality is reported as a violation only when the two normal forms differ at concrete sizes and values "
            "(the extracted relation is evaluated, not the program), otherwise as undecided.")

prop("C11", "Separable pooling and filtering compute their documented sliding dot products", "functional:c11",
     "SeparablePoolNd.forward correlates the input, one axis after the other in the given order, with that axis' one-dimensional kernel at "
     "that axis' stride (the kernel length by default): cell i of an axis is the dot product of the kernel with the cells i*stride .. "
     "i*stride + len(kernel) - 1 of the (padded) axis. With a same_padder, every axis is first padded so that the output length is "
     "ceil(length / stride), with the larger half of the padding before; to_filter sets the stride to 1, so that the output has the input's "
     "shape. Every other axis keeps its length and its entries stay separate.",
     ["inputs", "configurations"],
     "any input rank and lengths, any kernel values and lengths, any strides, one or two axes in either order, one setting for all axes or "
     "one per axis, without padding or with same padding in several modes",
     "the tests compare a few shapes with conv2d and scipy, mostly symmetric kernels, equal settings for all axes and ascending axes; a "
     "flipped kernel, a setting paired with the wrong axis or a padding half swapped does not show there",
     ["torchimage/pooling/base.py", "torchimage/shapes/conv_like.py"],
     [("unfold and matrix product per axis, kernels paired with axes in order", "torchimage/pooling/base.py SeparablePoolNd.forward"),
      ("same padding recomputed from the input shape", "torchimage/pooling/base.py BasePoolNd.pad, torchimage/shapes/conv_like.py same_padding_width_1d")],
     "Obligation per configuration: shape and every output cell (symbolic index, lengths, kernel entries, strides) equal the reference "
     "definition as normal forms.", floor=20, technique=FUN_TECH,
     note=FUN_NOTE + " Padding enters through the padder's documented extension (its own code is decided by C08/C09).")

prop("C13", "Colour filter array conversions place every sample where the sensor layout says", "cfa:conversions_pass",
     "bayer_1c_to_4c moves the sample at row 2i+r, column 2j+s to channel 2r+s at (i, j) and bayer_4c_to_1c is its inverse; rgb_to_1c_bayer "
     "and rgb_to_4c_bayer keep, at every position, exactly the colour that the sensor alignment string names for that position of the 2x2 "
     "block; downsample_1c_bayer_to_rgb and downsample_4c_bayer_to_rgb return each block's red and blue sample and the mean of its two "
     "greens. Leading (batch) axes are kept, and images of any even size are accepted.",
     ["inputs", "configurations"], "any even height and width, any leading axes, all four sensor alignments in upper or lower case",
     "the tests check round trips on random images, which a consistent permutation of positions or colours survives",
     ["torchimage/cfa/utils/bayer_1c_4c.py", "torchimage/cfa/utils/rgb_to_bayer.py", "torchimage/cfa/utils/bayer_to_rgb.py", "torchimage/cfa/utils/validation.py"],
     [("strided slices per position of the 2x2 block", "torchimage/cfa/utils/bayer_1c_4c.py, torchimage/cfa/utils/rgb_to_bayer.py")],
     "Obligation per conversion, sensor and rank: every output cell, split by channel and by row and column parity, is the documented input "
     "cell (or mean of two).", floor=40, technique=FUN_TECH, note=FUN_NOTE)

prop("C14", "Bayer convolution and demosaicing use the right filter at every position", "cfa:conv_pass",
     "BayerConv2d and BayerConv2dUnshuffle apply, at every pixel of the reflected-padded image, the weights and bias belonging to that "
     "pixel's position in the mosaic (red, blue, green on red rows, green on blue rows) for the given sensor alignment, and place the result "
     "at that pixel (or, unshuffled, in that position's channel); last_step_demosaic keeps the measured sample and inserts the two estimated "
     "colours in RGB order; an interpolator built from a dictionary of filters applies, for each colour missing at a pixel, the filter "
     "filed under that colour and that position, and clamps to [0, max_value]; demosaic is the interpolator with the Malvar-He-Cutler "
     "5x5 filters, for all four sensor alignments.",
     ["inputs", "configurations"], "any even height and width, any weights, kernel sizes 3, 5 and 7, all four sensor alignments, with and without bias",
     "the tests cover one alignment and compare with a stored image up to a tolerance, or check that shapes fit",
     ["torchimage/cfa/bayer_conv/bayer_conv_2d.py", "torchimage/cfa/bayer_conv/gradient_corrected.py", "torchimage/cfa/utils/bayer_1c_4c.py"],
     [("one convolution per mosaic position, applied to strided windows", "torchimage/cfa")],
     "Obligation per class and sensor: every output cell, split by channel and row/column parity, equals the documented weighted sum of "
     "cells of the reflected image.", floor=20, technique=FUN_TECH, note=FUN_NOTE)

prop("C19", "Average, Gaussian and edge kernels have their documented values", "filters:kernels_pass",
     "AvgPoolNd averages each window of kernel_size cells (every cell weighs 1 / kernel_size along each axis); GaussianPoolNd weighs the "
     "window with the sampled Gaussian of the given sigma, normalised to sum 1, or with its derivative of the given order (0 to 3), "
     "mirrored as a correlation kernel and truncated to even sizes; Sobel, Prewitt, Scharr and Farid use their published derivative kernels. "
     "Kernel sizes, sigmas, orders and strides given per axis belong to their axis, the stride is the kernel size by default, and same "
     "padding and to_filter behave as for every separable pooling. Without a padder, count_include_pad does not change the result; "
     "with a same_padder and count_include_pad=False the window's sum is divided by the product, over the pooled axes, of the number of "
     "original (not padded) cells that n_original_elements_1d gives for that window along that axis.",
     ["inputs", "configurations"],
     "any input, lengths and sigma; Gaussian sizes 1 to 7 and orders 0 to 3; any average kernel size and stride, one or two axes in either "
     "order, equal or different settings per axis, without or with same padding",
     "the tests check that kernels sum to one and compare a few sizes and default sigmas with scipy; a sign, a factor or a setting paired "
     "with the wrong axis survives for symmetric or equal settings",
     ["torchimage/pooling/gaussian.py", "torchimage/pooling/uniform.py", "torchimage/filtering/edges.py", "torchimage/pooling/base.py"],
     [("closed-form and recurrence construction of the kernels", "torchimage/pooling/gaussian.py _gaussian_kernel1d, torchimage/pooling/uniform.py"),
      ("kernel constants", "torchimage/filtering/edges.py")],
     "Obligation per configuration: every output cell equals the reference definition as normal forms (kernel entries as closed forms in "
     "sigma).", floor=25, technique=FUN_TECH,
     note=FUN_NOTE + " Gaussian sizes and orders are enumerated, sigma, lengths, strides and average sizes are symbolic; n_original_elements_1d itself is "
          "assumed to count as documented (see not_applicable).")

prop("C20", "Edge filters return the documented components, magnitudes and Laplacians", "filters:edges_pass",
     "EdgeFilter.component applies the edge kernel along the edge axis and the smoothing kernel (normalised to sum 1 if normalize is set) "
     "along every other filtered axis, whatever the order in which axes are listed; all_components returns one component per axis in the "
     "order of axes; magnitude is (sum of c**p over the components c + epsilon)**(1/p), p=2 by default; horizontal differentiates along the last "
     "but one axis and smooths along the last, vertical the other way round; Laplace and LaplacianOfGaussian sum the "
     "second derivatives over all axes; GaussianGrad uses Gaussian derivative and Gaussian smoothing kernels with separately configurable "
     "size, sigma and order. The result has the shape of the input when a same_padder is set, for the fixed-kernel fast paths (integer "
     "kernels) as well as for general kernels.",
     ["inputs", "configurations"],
     "all edge filter classes, normalised or not, any EdgeFilter kernels, any image, p, epsilon, same padding modes or none, two or three axes "
     "in several orders",
     "the tests compare Sobel-like filters with skimage on one image and the default configuration; swapped axes or kernels show only for "
     "asymmetric configurations (unordered axes, edge and smoothing parameters that differ, p other than 2)",
     ["torchimage/filtering/edges.py", "torchimage/pooling/base.py", "torchimage/pooling/gaussian.py"],
     [("edge and smoothing filters applied along their axes", "torchimage/filtering/edges.py EdgeFilter.component"),
      ("components accumulated in order of axes", "torchimage/filtering/edges.py EdgeFilter.all_components, magnitude")],
     "Obligation per class, method and configuration: shape and every output cell equal the reference definition as normal forms.",
     floor=45, technique=FUN_TECH,
     note=FUN_NOTE + " Padding enters through the padder's documented extension.")

prop("C17", "MSE, PSNR and the edge losses equal their formulas", "metrics:metrics_pass",
     "MSE is the squared difference of the two images, averaged or summed over reduce_axes (all axes by default, in any order, negative or a "
     "slice) or returned in full with reduction='none'; PSNR is 20*log10(max_value) - 10*log10(MSE + eps) of that reduction; the contrib edge "
     "losses compare the Gaussian-derivative edge components of both images by mean absolute difference (unweighted, times or divided by "
     "the true edges) or by the difference of per-channel mean absolute edges. Reduced axes are removed, every other axis keeps its position.",
     ["inputs", "configurations"],
     "any two images of the same shape, reduction mean/sum/none, several choices of reduce_axes in several orders, any max_value and eps",
     "the tests compare default settings with skimage on one image; a mixed-up axis or a factor does not show on square images or for max_value=1",
     ["torchimage/metrics/base.py", "torchimage/metrics/mse.py", "torchimage/metrics/psnr.py", "torchimage/contrib/edge_loss.py"],
     [("reduction over checked axes", "torchimage/metrics/base.py BaseMetric.forward, _reduce"),
      ("edge components concatenated along channels", "torchimage/contrib/edge_loss.py GaussianEdgeLoss._get_edge_tensor")],
     "Obligation per class, reduction and axes: shape and every cell of the result equal the formula as normal forms.", floor=18,
     technique=FUN_TECH, note=FUN_NOTE + " The logarithm of a zero error (eps=0, equal images) is minus infinity in both.")

prop("C18", "SSIM and MS-SSIM equal their published formulas", "metrics:ssim_pass",
     "SSIM is the mean over reduce_axes of ((2*m1*m2+C1)(2*s12+C2)) / ((m1^2+m2^2+C1)(s1+s2+C2)) with Cn = Kn^2 and local means, variances "
     "and covariance taken by the blur filter along content_axes only; variances are scaled by n/(n-1) (n the number of cells of the window) "
     "if use_sample_covariance is set; with a padder, cells whose window reaches into the padding are left out of the mean if crop_border is "
     "set; full=True returns the uncropped map as well. MS_SSIM combines contrast-structure means of every level and the full SSIM mean of "
     "the last, each level halved by 2x2 averaging along content_axes, as product of clamped powers or as weighted sum, then averages over "
     "reduce_axes. Both are symmetric in the two images.",
     ["inputs", "configurations"],
     "any two images of the same shape, any blur kernel (equal or different per axis), K1, K2, weights and eps, one to three content axes in "
     "several orders, one to five levels, with and without padding and cropping",
     "the tests need skimage and pytorch reference packages, use square windows and default axes; wrong axes, window sizes or crop widths "
     "show only for asymmetric settings",
     ["torchimage/metrics/ssim.py"],
     [("moments by filtering products", "torchimage/metrics/ssim.py SSIM._mu_sigma"),
      ("crop by the padding width last used", "torchimage/metrics/ssim.py SSIM._crop_border"),
      ("levels and weights", "torchimage/metrics/ssim.py MS_SSIM.forward")],
     "Obligation per configuration: shape and every cell of the result equal the reference definition as normal forms (rational functions "
     "of window sums).", floor=18, technique=FUN_TECH, note=FUN_NOTE + " Padding enters through the padder's documented extension.")

prop("C21", "Unsharp masking adds the thresholded, amplified detail to the image", "misc:unsharp_pass",
     "UnsharpMask returns x + amount * d, where d is x minus the result of the blur filter applied along the given axes (all from the third "
     "on by default) with the mask's padder, or the blur's own padder when none is given; with a threshold, detail whose absolute value is below it is set "
     "to zero. The input keeps its values.",
     ["inputs", "configurations"],
     "any image, blur kernel, amount and threshold, one or two axes in several orders, several padding modes",
     "the tests compare one image with skimage for default settings; a detail threshold that ignores the sign, a lost padder or a swapped "
     "axis does not show there",
     ["torchimage/filtering/sharpen.py", "torchimage/pooling/base.py"],
     [("blur by to_filter of the blur pooling", "torchimage/filtering/sharpen.py UnsharpMask.forward")],
     "Obligation per configuration: shape and every cell of the result equal the definition as normal forms.", floor=10,
     technique=FUN_TECH, note=FUN_NOTE + " Padding enters through the padder's documented extension.")

prop("C25", "Random crop and noise follow their formulas with draws from the generator", "misc:random_pass",
     "random_crop returns, for every listed axis with a size, a contiguous window of that size whose first index is drawn uniformly from all "
     "positions that fit (0 to length - size, each axis drawn by itself, from the given generator), leaves axes whose size is None and all "
     "other axes whole, and pairs sizes with axes in the order they are listed. add_gauss_noise adds sigma times a standard normal draw "
     "per element; add_poisson_gauss_noise returns k times a Poisson draw of rate x / k plus sigma times an independent standard normal draw "
     "per element.",
     ["inputs", "configurations"],
     "any image of any rank, axes in any order, sizes from 0 to the axis length, None or shared, any sigma >= 0 and k > 0",
     "the tests draw a few crops and noises; a last position never drawn, a draw shared by axes or a factor is a matter of luck to see",
     ["torchimage/random.py"],
     [("one draw per cropped axis", "torchimage/random.py random_crop"),
      ("noise built from two draws", "torchimage/random.py add_poisson_gauss_noise")],
     "Obligation per function and configuration: shape and every cell of the result equal the definition as normal forms over symbolic "
     "draws; the range of every integer draw is part of its identity.", floor=15, technique=FUN_TECH,
     note=FUN_NOTE + " The distribution of the library's samplers is trusted.")

prop("C26", "Tensor utilities compute their documented formulas", "misc:util_pass",
     "outer(u, v)[i..., j...] = u[i...] * v[j...]; poly1d evaluates the polynomial with the given coefficients (highest power first) at every element; safe_power is "
     "x ** exponent except that, for fractional exponents, negative x gives -((-x) ** exponent) and zero x is replaced by epsilon; "
     "describe returns mean, std, min, quartiles and max; any_conv_1d is the valid strided, dilated correlation along the given axis of "
     "a tensor of any rank; conv_1d is the number of window positions; pad_width_format converts between torch order (last axis first, flat) "
     "and numpy order (first axis first, pairs), with zero widths for axes not mentioned.",
     ["inputs", "configurations"],
     "any tensor values and lengths; ranks 0 to 4; polynomials of up to six coefficients; any stride and dilation; up to three padded axes",
     "the tests sample a few values and shapes; a transposed pair or a sign for one class of elements is easily missed",
     ["torchimage/misc/", "torchimage/pooling/operator.py", "torchimage/shapes/conv_like.py", "torchimage/padding/utils.py"],
     [("masked assignment of negative and zero bases", "torchimage/misc/power.py safe_power"),
      ("views around library convolutions", "torchimage/pooling/operator.py any_conv_1d")],
     "Obligation per function and rank: shape and every cell (or entry) of the result equal the definition as normal forms, case by case.",
     floor=60, technique=FUN_TECH, note=FUN_NOTE)

prop("C23", "Per-axis settings (NdSpec) broadcast and align as documented", "ndspec:ndspec_pass",
     "NdSpec(data, item_shape) stores a partial item or an item as one item broadcast to item_shape (missing leading dimensions repeated, "
     "length-1 dimensions expanded, -1 left as it is) that answers every integer index and has length 0; a list of items is stored in order "
     "with every item broadcast, indexed like a list (also with a tuple per index dimension) and raises IndexError out of range. Items that "
     "cannot be broadcast raise ValueError. item_shape, index_shape, ndim, item_ndim, index_ndim, is_item, len and iteration report this "
     "structure (-1 for ragged lengths); a given index_shape that the data do not have raises ValueError. map, starmap, apply and zip work "
     "item by item, keep the index shape, repeat single items against lists, and like agg_index_shape and agg_index_len raise ValueError "
     "if two lists differ in index shape; agg_index_len asserts the allowed numbers of index dimensions. get_ragged_ndarray, "
     "expand_ragged_ndarray and apply_ragged_ndarray follow the same rules for ragged nested lists.",
     ["inputs", "configurations"],
     "nested lists and tuples of any scalars (numbers, text, None), up to three levels deep and five entries long, against item shapes of up "
     "to two dimensions; any leaf values",
     "the tests check a few nestings; broadcasting errors of ragged, singleton or mixed-length settings reach the image operations only as "
     "wrong per-axis parameters",
     ["torchimage/utils/ndspec.py", "torchimage/utils/ragged.py"],
     [("recursive expansion", "torchimage/utils/ragged.py _recursive_expand, expand_ragged_ndarray"),
      ("index and item part of the shape", "torchimage/utils/ndspec.py NdSpec")],
     "Obligation per nesting, item shape and operation: interpreting the class on symbolic leaves gives the documented nested structure, "
     "entry by entry, or the documented exception.", floor=600,
     technique="abstract interpretation of the class on symbolic leaves; structural comparison with the documented nesting",
     note="Decided for the enumerated nestings with symbolic leaves; tensors and numpy arrays as data are covered only through the "
          "operations that pass them.")

prop("C10", "Axes arguments mean the same in every spelling", "calls:axes_pass",
     "check_axes turns an integer, a tuple or list of integers (negative ones count from the end), a slice or None (all axes) into the tuple "
     "of the non-negative axes that python indexing gives, in the listed order. Every operation with an axes argument (padding, pooling, "
     "filtering, unsharp masking, edge filters, MSE, PSNR, SSIM, MS_SSIM, random_crop) returns the same result for every spelling of the "
     "same axes, and its default axes are the documented ones (from the third axis on for padding, pooling, unsharp masking and the SSIM "
     "content axes, from the second on for the SSIM reduction, all axes for edge filters, MSE and PSNR).",
     ["inputs", "configurations"],
     "any spelling of axes of tensors with one to four axes; any image sizes and parameter values",
     "the tests use one or two spellings per operation; a module that handles negative axes, lists or slices itself goes wrong for the others only",
     ["torchimage/utils/validation.py", "torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/pooling/uniform.py",
      "torchimage/filtering/edges.py", "torchimage/metrics/ssim.py", "torchimage/random.py"],
     [("every operation normalises its axes with check_axes", "torchimage/utils/validation.py check_axes")],
     "Obligation per spelling and operation: the value-dependence graphs of the call with that spelling and of the call with the tuple of "
     "non-negative axes are the same, or equal as normal forms; per spelling, check_axes is interpreted to the tuple of python indexing.", floor=900,
     technique="value-dependence-graph equality of two interpreted calls (identity, else normal-form equality)",
     note="Ranks one to four, spellings enumerated; sizes, parameters and values are symbolic.")

prop("C15", "Invalid arguments are rejected instead of producing a result", "calls:reject_pass",
     "The following raise ValueError or AssertionError and never return a result: an unknown padding mode (alone or in a list); a negative "
     "pad width, or one that is not a pair; per-axis settings (widths, modes, values, kernels, strides, sigmas) of different lengths; settings for "
     "several axes applied to another number of axes by a pooling module; an axis outside [-ndim, ndim) given to any operation with an axes "
     "argument; padding a tensor without axes; a stride below 1; a same_padder that is neither a mode nor a Padder; same padding with a "
     "stride other than 1 but no input size; an unknown pad width format or a conversion to numpy format without ndim; a negative Gaussian "
     "order; several edge kernels, several edge axes, or a gradient magnitude or all_components along fewer than two axes; per-axis kernel "
     "sizes or sigmas of GaussianGrad without the edge kernel's own; an unknown metric reduction; images of different shapes in any metric; "
     "an image not larger than the blur kernel at the coarsest level of MS_SSIM; a sensor alignment that is not RGGB, BGGR, GRBG or GBRG; "
     "colour filter array images with a wrong number of channels, fewer than three axes, or (where 2x2 blocks are taken) odd sizes.",
     ["inputs", "configurations"],
     "every listed kind of invalid argument, any values of the other arguments",
     "the tests check a few rejections; a validation that is skipped on one path silently yields a wrong image",
     ["torchimage/utils/validation.py", "torchimage/padding/generic_pad.py", "torchimage/padding/utils.py", "torchimage/pooling/base.py",
      "torchimage/filtering/edges.py", "torchimage/metrics/", "torchimage/cfa/utils/validation.py"],
     [("validation at construction and before computing", "check_axes, check_stride, check_pad_width, check_sensor_alignment, check_rgb, NdSpec.agg_index_shape")],
     "Obligation per invalid call: on every path of the interpreted call (constructor and use) an exception of a documented type is raised before a value is returned.",
     floor=230, technique="path-sensitive abstract interpretation: reachability of a normal return",
     note="Shapes and settings of the invalid calls are enumerated; the offending value is symbolic where it is a number.")

prop("C16", "Same padding gives ceil(length / stride) results and pads the larger half before", "calls:same_pass",
     "same_padding_width(k, s, n) returns (before, after) with before + after = max((ceil(n / s) - 1) * s + k - n, 0), that is k - 1 for stride 1, and before - after "
     "is 0 or 1 (a stride of None means the kernel size); Padder.to_same sets exactly these widths for every axis, pairing kernel sizes, "
     "strides and sizes by position. A pooling module with a same_padder therefore returns ceil(length / stride) cells along every pooled "
     "axis, and a filter (to_filter, the edge filters, GaussianGrad, Laplace, LaplacianOfGaussian, UnsharpMask) returns the shape of its input, in "
     "every padding mode (periodize excepted, which first completes odd lengths) and for even and odd kernels; other axes keep their length.",
     ["inputs", "configurations"],
     "any length; any kernel size with stride 1, kernel sizes 1 to 5 with strides 1 to 7; every padding mode; axes in any order",
     "the tests use one stride and a few sizes; lengths that are no multiple of the stride and even kernels differ by one cell",
     ["torchimage/padding/utils.py", "torchimage/padding/generic_pad.py", "torchimage/pooling/base.py"],
     [("width arithmetic", "torchimage/padding/utils.py same_padding_width"), ("per-axis application", "torchimage/padding/generic_pad.py Padder.to_same")],
     "Obligation per kernel size, stride and module: the interpreted widths, respectively the lengths of all axes of the result, equal the formula "
     "under integer-division facts.", floor=250,
     technique="abstract interpretation with a linear-inequality and integer-division domain; equality of length expressions",
     note="Strides are constants (1, 2, 3, 4, 5, 7); lengths are symbolic, kernel sizes symbolic for stride 1 and for same_padding_width.")

prop("C22", "Calls with valid arguments complete", "calls:complete_pass",
     "Padding, pooling, filtering, metric, loss, colour-filter-array, noise, cropping and utility calls with documented arguments raise no exception "
     "and combine only tensors of fitting shapes: for any rank and sizes the operation admits, axes in any order (or none at all), kernel "
     "sizes, strides, pad widths including zero and wider than the image, every padding mode, scalar or per-axis settings, and with or "
     "without padder.",
     ["inputs", "configurations"],
     "every call of the catalog and of the definition checks, with symbolic ranks, sizes and parameters",
     "the tests run a few configurations; an exception on an early exit, an odd size or an unusual axis order is not met",
     ["torchimage/"],
     [("early exits for empty kernels, zero widths and no axes", "torchimage/padding/generic_pad.py, torchimage/pooling/base.py")],
     "Obligation per call: no raise statement, failed assertion, None operand, missing attribute, unbound name or wrong call signature is "
     "reachable under a satisfiable path condition, and the operand shapes of the interpreted tensor operations fit.", floor=700,
     technique="path-sensitive abstract interpretation: unreachability of exceptions, shape inference",
     note="A reachable exception is reported after its path condition is confirmed with values for its symbols. Errors inside the library "
          "operations other than shape mismatches of assignments and element-wise operations are not modelled.")
