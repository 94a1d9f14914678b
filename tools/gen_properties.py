"""Writes /verif/properties.jsonl (kept as code so that it can be reviewed and edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, title
    P.append(d)
K = 'kymatio/'
S1, S2, S3 = K+'scattering1d/', K+'scattering2d/', K+'scattering3d/'
BK = lambda d: [K+d+'/backend/'+b+'_backend.py' for b in ('numpy','torch','tensorflow','jax')]

prop('C01', '1D transform: padding and output grid are right for every signal length',
 'For every signal length N and every admissible scale and averaging length (2^J and T at most N), a 1D transform pads the signal to a power-of-two length that holds it, never by as much as the signal length on either side, with the two sides differing by at most one sample. At each dyadic resolution the returned samples are exactly those grid points of the padded signal that fall inside the original signal: non-empty, inside the padded extent, the first and last at most one step from the borders. Averaging length, stride and oversampling determine the resolution at which coefficients are returned.',
 ['inputs','configurations'], 'all signal lengths N up to 2^20, all J up to 16, all integer and fractional averaging lengths 1<=T<=N, every filter support the padding rule may see; the whole construction code is executed with these symbolic',
 'Tests build a few lengths (mostly powers of two); off-by-one errors appear only at particular residues of N and the padding modulo the stride.',
 [S1+'utils.py', S1+'frontend/base_frontend.py'], [('border indices','compute_border_indices'),('padding split','compute_padding'),('padded size','ScatteringBase1D.build')])
prop('C02', '1D boundary extension mirrors the signal and unpadding undoes it',
 'For every real signal and every pair of pad amounts smaller than the signal, every 1D backend extends the signal by whole-sample mirror reflection on each side, leaves the original samples unchanged, and cropping at the pad offset returns the signal exactly. Pad amounts as large as the signal are refused rather than producing undefined values. Zero-extension along the frequency axis appends exactly the requested number of zeros, and swapping time and frequency is its own inverse.',
 ['inputs','configurations'], 'all real signals; lengths up to 7, every pair of pad amounts up to 8, batches up to 2, four backends',
 'Tests compare a few pads on random data in one or two sizes per backend.',
 BK('scattering1d'), [('pad / unpad','NumpyBackend1D, TorchBackend1D, TensorFlowBackend1D, JaxBackend1D')])
prop('C03', 'Fourier-domain subsampling equals decimation in every 1D and 2D backend',
 'For every complex spectrum and every subsampling factor dividing its length, the inverse transform of the Fourier-subsampled spectrum is exactly the decimation of the inverse transform of the original (every k-th sample, starting at the origin, with unchanged amplitude), independently on each batch element, along each spatial axis. Real-valued inputs are refused. This holds in all backends.',
 ['inputs','configurations'], 'all complex spectra; 1D lengths up to 24, 2D sizes up to 12x8 with unequal sides, all factors dividing the sizes, batches up to 2, four backends',
 'Tests check one random array per backend with a float tolerance and equal sides.',
 BK('scattering1d')+BK('scattering2d'), [('periodisation','subsample_fourier')])
prop('C04', 'Fourier transforms are exact inverse pairs with the documented conventions',
 'In every backend and dimension, the transform of a real input equals the discrete Fourier sum over exactly the signal axes, the complex inverse transform undoes it, and the real inverse returns the real part of the complex inverse. Inputs of the wrong type (complex where real is required and vice versa) are refused with a type error. Batch and channel axes are never mixed or transformed.',
 ['inputs','configurations'], 'all real/complex arrays; 1D lengths up to 24, 2D up to 6x4, 3D up to 4x3x2, batches up to 2, four backends',
 'Tests compare with a float tolerance on few random arrays and mostly cubes/squares; axis mistakes are invisible on symmetric sizes.',
 BK('scattering1d')+BK('scattering2d')+BK('scattering3d'), [('fft wrappers','rfft, irfft, ifft, cfft')])
prop('C05', 'Filter multiplication and modulus are the exact pointwise operations',
 'Multiplying a batch of spectra by a real or complex filter yields, for all values, the pointwise complex product broadcast over leading axes; the modulus is the pointwise Euclidean norm, non-negative and zero only at zero; and the global average sums over time only. Incompatible shapes, real spectra and other unsuitable operands are refused. Results are the same in all backends and operands are never modified.',
 ['inputs','configurations'], 'all real/complex operand values; shapes up to 2x2x4x3, all backends and dimensions; mismatching shapes enumerated by the solver',
 'Tests use one or two random arrays per backend.',
 [K+'backend/numpy_backend.py',K+'backend/torch_backend.py',K+'backend/tensorflow_backend.py',K+'backend/jax_backend.py']+BK('scattering3d'), [('products','cdgmm, cdgmm3d'),('modulus','modulus, ModulusStable')])
prop('C06', '1D scattering computes the documented cascade for every signal and filter set',
 'For every real signal, the zeroth-, first- and second-order coefficients of a 1D transform are the low-pass of the mirror-extended signal, of its wavelet modulus, and of the second wavelet modulus, sampled at the output stride and restricted to the original extent; without averaging the moduli themselves are returned, with global averaging their sums over time. This holds for every admissible combination of scale, averaging length, stride, oversampling, order and filter values, in every frontend.',
 ['inputs','configurations'], 'all real signals and generic filter values (consistent across resolutions); a bounded family of configurations (N<=24, J<=3, Q up to (2,2), all T/stride/oversampling/order/averaging modes), four backends',
 'Tests compare two stored signals with default parameters and a few shapes; no test pins strides, averaging lengths and orders against the definition.',
 [S1+'core/scattering1d.py', S1+'frontend/base_frontend.py', S1+'frontend/torch_frontend.py', S1+'frontend/tensorflow_frontend.py', S1+'frontend/jax_frontend.py', S1+'frontend/numpy_frontend.py'], [('cascade','scattering1d'),('averaging, unpadding, ordering','ScatteringBase1D.scattering')])
prop('C07', '1D scattering subsamples consistently for every filterbank and stride',
 'Whatever the dyadic scales of the first- and second-order filters, the averaging scale and the output stride (at most the averaging scale), each filter is applied at a resolution for which it is provided and which matches the data, no signal is subsampled beyond what its filter allows, second-order paths exist exactly for strictly increasing scales, and every averaged coefficient ends at the output stride. Each path is labelled with the filters that produced it and none is computed twice.',
 ['configurations'], 'all filter scales up to 20 (symbolic) for up to three filters per layer, all averaging scales and strides up to 2^20, with and without averaging, orders one and two',
 'A run exercises one filterbank; resolution mistakes need particular combinations of j1, j2, averaging scale and stride.',
 [S1+'core/scattering1d.py'], [('resolution bookkeeping','scattering1d')])
prop('C08', '1D output formats, ordering, metadata and output size agree',
 'For every configuration, the array, list and dictionary outputs of the 1D transform contain the same coefficients; array rows and list entries are ordered by order and then lexicographically by filter index; metadata lists exactly the same keys in the same order with matching scale, frequency and bandwidth; and the reported output size equals the number of coefficients, in total and per order. Asking for metadata or output size never fails on a transform that can be evaluated, and never changes it.',
 ['configurations','histories'], 'bounded family of J, Q, N, T, stride, order, averaging and output formats (explored with symbolic choices), plus arbitrary filterbank scales for the ordering',
 'Tests check metadata for a couple of default configurations; small averaging lengths and order 1 are never combined.',
 [S1+'frontend/base_frontend.py'], [('ordering and metadata','ScatteringBase1D.scattering, meta, output_size')])
prop('C09', '1D wavelet filterbank parameters are free of aliasing and ordered',
 'For every scale and quality factor, the generated centre frequencies are positive, below Nyquist and strictly decreasing, bandwidths are positive, non-increasing and never below the prescribed minimum, and there are at most (J+1)Q filters. Each filter receives the largest dyadic subsampling that keeps its essential band below the subsampled Nyquist frequency, never beyond the transform scale, and spinned banks contain exactly the filters and their mirror images.',
 ['inputs','configurations'], 'all real centre frequencies in (0,1/2], bandwidths and band constants for the subsampling; whole filterbanks with Q up to 16 and J up to 12 (J bounded by Q: see the evidence), every sigma0 in [0.1, 1] and every band ratio; scales around the default constants up to J=12, Q=24',
 'Tests sample a few (J,Q) pairs with the default constants.',
 [S1+'filter_bank.py'], [('subsampling','get_max_dyadic_subsampling'),('centre frequencies','anden_generator, compute_xi_max, compute_sigma_psi, spin')])
prop('C10', '1D filters have zero mean, unit norm and consistent resolutions',
 'Every wavelet equals the periodised Gaussian at its centre frequency minus the multiple of the periodised low-pass that gives it exactly zero mean, normalised to unit l1 norm in time; low-pass filters have unit l1 norm and are symmetric up to the neglected spectral periods. The coarser versions of a filter are exactly the periodisation of its finest version, wavelets at first order exist at full resolution only, and every resolution that any admissible path can request is available for wavelets and low-pass filters. Filter descriptions carry their own frequency, bandwidth and scale.',
 ['inputs','configurations'], 'all real frequencies and bandwidths (number of spectral periods 1..5), lengths up to 16; arbitrary filter scales and values for the resolutions; the banks that Scattering1D and the joint transform really build',
 'Tests check norms to float precision for a few parameters.',
 [S1+'filter_bank.py'], [('morlet','morlet_1d, gauss_1d'),('resolutions','scattering_filter_factory')])
prop('C11', 'Temporal support is the smallest window leaving a negligible tail',
 'For every family of filters the reported temporal support is one more than the smallest index from which the one-sided l1 tail of every filter of the family is at or below the criterion, and half of the filter length, with a warning, when no index qualifies.',
 ['inputs'], 'all filter values and criteria; families up to 4 filters, lengths up to 128',
 'Tests check a delta and one Gaussian family.',
 [S1+'filter_bank.py'], [('support','compute_temporal_support')])
prop('C12', '1D parameters are validated: valid ones accepted, invalid ones refused',
 'Every averaging length that is none, zero, "global", or between one and the signal length is accepted and means local averaging over that length, no averaging, or global averaging; any other is refused. Strides must be integer powers of two and are refused when no local averaging takes place; oversampling must be a non-negative integer and must agree with an explicit stride; quality factors must be at least one, given as an integer or a tuple of one or two; shapes must be an integer or a one-element tuple; unknown output formats and array output without averaging are refused, at the latest when the transform is first used.',
 ['inputs','configurations'], 'all integer and real averaging lengths, strides, oversamplings, quality factors (symbolic), lengths up to 2^20',
 'Tests try a handful of invalid values.',
 [S1+'utils.py', S1+'frontend/base_frontend.py'], [('parsing','parse_T, log2_stride, Q, build'),('runtime checks','_check_runtime_args, _check_input')])
prop('C13', '2D transform: padding and output size are right for every image size',
 'For every image size and every scale not exceeding it, the padded size is a multiple of 2^J in each dimension, the padding on each side is at least 2^J/2 and at most the image size, both sides differ by at most one pixel (the extra pixel lying on the same side of both axes), and after subsampling and cropping one border sample the output is floor(size/2^J) in each dimension, covering grid points inside the image. Images smaller than 2^J are refused, as are inputs of any other size.',
 ['inputs','configurations'], 'all image sizes up to 2^16 per dimension (symbolic, unequal), J up to 10',
 'Tests use a few even sizes.',
 [S2+'utils.py', S2+'frontend/base_frontend.py'], [('padding','compute_padding, ScatteringBase2D.build'),('crop','unpad')])
prop('C14', '2D boundary extension mirrors the image in every backend',
 'For every real image, every 2D backend extends it by mirror reflection along each axis (including pad amounts equal to the image size), keeps the interior unchanged and crops exactly one border sample per side when undoing it; a transform told that its input is pre-padded leaves it unchanged and gives exactly the result of the ordinary transform on the unpadded image.',
 ['inputs','configurations'], 'all real images; sizes from 1x2 to 6x5, all admissible pads including those equal to the size, batches up to 2, four backends; pre-padded whole transforms',
 'Tests try one or two sizes on random data; the equal-size branch exists only in some backends.',
 BK('scattering2d')+[S2+'frontend/base_frontend.py', S2+'frontend/tensorflow_frontend.py', S2+'frontend/torch_frontend.py'], [('padding','Pad.__call__'),('pre_pad','frontend constructors')])
prop('C15', '2D scattering computes the documented cascade for every image and filter set',
 'For every real image, the 2D transform returns the low-pass of the mirror-extended image, of every wavelet modulus and of every second wavelet modulus with strictly larger scale, sampled every 2^J pixels and cropped to the image. This holds for every scale, angle count, order and filter values, in every frontend and output format.',
 ['inputs','configurations'], 'all real images and generic filter values; sizes up to 9x8, J up to 3, L up to 3, orders 1 and 2, four backends',
 'Tests compare one stored image with default parameters.',
 [S2+'core/scattering2d.py', S2+'frontend/numpy_frontend.py', S2+'frontend/torch_frontend.py', S2+'frontend/tensorflow_frontend.py', S2+'frontend/jax_frontend.py'], [('cascade','scattering2d')])
prop('C16', '2D paths, ordering and output formats agree for every scale and angle count',
 'For every J and L the 2D transform yields one zeroth-order path, JL first-order paths and, at order two, L^2 J(J-1)/2 second-order paths with strictly increasing scales, ordered by order and then lexicographically by filter index; each is labelled with the scale, index and angle of its filters, every filter is used at the resolution of the data, and array channels follow the list order.',
 ['configurations'], 'all J, L up to 4 with arbitrary filter values, plus arbitrary filter scales (symbolic) for resolution bookkeeping',
 'Tests check a default configuration.',
 [S2+'core/scattering2d.py', S2+'filter_bank.py'], [('path loops','scattering2d')])
prop('C17', '2D filters: zero-mean wavelets, right angles and exact periodisation',
 'The 2D filterbank holds JL wavelets ordered by scale and then angle, with angle index, and one low-pass filter; angles decrease in steps of pi/L, and each scale doubles the bandwidth and halves the frequency of the previous one; every wavelet has zero mean; the coarser version of a filter is the alias-free periodisation of its finest version (band outside the retained square removed); every resolution a path can request is present.',
 ['inputs','configurations'], 'all filter spectra for periodisation (sizes up to 8x12, resolutions up to 2); all envelope and carrier values for the zero mean; J up to 4, L up to 4',
 'Tests compare with a stored filterbank at one size.',
 [S2+'filter_bank.py'], [('filters','filter_bank, periodize_filter_fft, morlet_2d, gabor_2d')])
prop('C18', '3D scattering computes the documented integrals for every volume',
 'For every real volume, the 3D transform returns, for each power, the integral of that power of every first-order and strictly-increasing-scale second-order modulus, combined over all azimuthal orders when rotation covariance is requested and the first otherwise, laid out as (batch, scale path, angular order, power) in the same documented order in all backends. Only volumes of the declared size and supported methods are accepted.',
 ['inputs','configurations'], 'all real volumes and generic complex filters; sizes up to 3x2x4, J up to 2, L up to 2, orders 1 and 2, both covariance modes, several power lists, four backends; which wavelets, degrees and azimuthal orders enter which coefficient: J up to 6, L up to 9 (symbolic); powers between 1/8 and 16',
 'Tests compare one stored volume.',
 [S3+'core/scattering3d.py', S3+'frontend/base_frontend.py', S3+'frontend/numpy_frontend.py', S3+'frontend/torch_frontend.py', S3+'frontend/tensorflow_frontend.py', S3+'frontend/jax_frontend.py']+BK('scattering3d'), [('cascade','scattering3d'),('integrals','compute_integrals'),('covariant modulus','modulus_rotation')])
prop('C19', '3D coefficients are invariant to circular translation',
 'Circularly translating a volume by any integer offset leaves every 3D scattering coefficient unchanged, for all volumes and all filters. Mirror-symmetric or permuted storage of azimuthal orders does not change rotation-covariant coefficients.',
 ['inputs'], 'all real volumes, all offsets, generic complex filters; sizes up to 4x2x2, orders 1 and 2',
 'Tests translate one random volume by a few offsets.',
 [S3+'core/scattering3d.py']+BK('scattering3d'), [('global integral of moduli','scattering3d, compute_integrals')])
prop('C20', '3D geometric helpers and filters are correct for every size and width',
 'Gaussian and solid-harmonic filters are centred at the origin of the periodic grid, for odd and even sizes, and even or odd according to their order, with unit response at zero frequency for the Gaussian and zero mean for every higher order; the magnitude over azimuthal orders depends on the distance to the origin only and has unit integral in space; frequency-domain filters are the Fourier transform of the spatial ones; filterbanks contain one filter per scale and azimuthal order with doubling widths. A weighted sum of Gaussians equals its definition for all positions and weights, ignoring points after the first zero weight; the double factorial is the product of every second integer.',
 ['inputs','configurations'], 'all real positions, weights and widths on symbolic grids up to 3x2x2; all widths for the filters on grids up to 8x8x8 and 7x3x9, orders up to 5',
 'Tests sample single values.',
 [S3+'utils.py', S3+'filter_bank.py'], [('helpers','generate_weighted_sum_of_gaussians, double_factorial, get_3d_angles'),('filters','gaussian_3d, solid_harmonic_3d, banks')])
prop('C21', 'Joint time-frequency scattering computes the documented cascade',
 'For every real signal, joint time-frequency coefficients are the moduli of the wavelet modulus convolved along time and log-frequency, averaged locally, globally or not at all along each axis as requested, restricted to the original extents, in both formats and all output types, in every backend. Every admissible combination of averaging and stride in time and frequency can be evaluated.',
 ['inputs','configurations'], 'all real signals and generic filter values; N up to 24, J up to 3, J_fr up to 2, all averaging modes, formats and output types, strides up to the averaging scale, four backends; resolutions, filters and paths for every filter scale, averaging scale and stride up to 2^20 (symbolic)',
 'Tests run a few default configurations and check shapes only.',
 [S1+'core/timefrequency_scattering.py', S1+'frontend/base_frontend.py'], [('cascade','joint_timefrequency_scattering, time_scattering_widthfirst, frequency_scattering, time_averaging, frequency_averaging, jtfs_average_and_format')])
prop('C22', 'Joint time-frequency metadata describes the output rows',
 'For every configuration and output format, joint time-frequency metadata has one entry per returned coefficient, in the order of the returned list or array, with the key, filter indices, order, spin, scales and frequencies of the filters which produced that coefficient; list, dictionary and array outputs hold the same coefficients (the array up to zero-padding along frequency).',
 ['configurations'], 'bounded family: N, J, Q, J_fr, averaging modes, strides, formats and output types; keys, order and labels for arbitrary filter scales and strides (symbolic)',
 'Tests look at a few keys in default configurations.',
 [S1+'frontend/base_frontend.py', S1+'core/timefrequency_scattering.py'], [('metadata','TimeFrequencyScatteringBase.meta'),('formatting','time_formatting')])
prop('C23', 'Every batch element is transformed independently and batch shape is kept',
 'For every transform and frontend, the output keeps the leading axes of the input whatever their number (including none), and each output slice is the transform of the corresponding input slice alone. Inputs without enough axes are refused.',
 ['inputs','configurations'], 'all real inputs; every leading shape with up to three axes of one or two elements (one exception: 2x2x2); 1D, joint, 2D and 3D transforms, four backends, array and list outputs',
 'Tests compare float outputs for one random batch.',
 [S1+'frontend/base_frontend.py', S2+'frontend/numpy_frontend.py', S2+'frontend/torch_frontend.py', S2+'frontend/tensorflow_frontend.py', S3+'frontend/numpy_frontend.py', S3+'frontend/torch_frontend.py', S3+'frontend/tensorflow_frontend.py', K+'backend/numpy_backend.py'], [('reshaping','reshape_input, reshape_output, frontends')])
prop('C24', 'Transforms are pure: inputs, filters and results survive any call sequence',
 'Evaluating a transform never modifies its input or its filters, and a transform object gives the same result for the same input after any sequence of evaluations, metadata queries and changes and restorations of the output format, of the module state and of its precision. It reads the present contents of its input, even when the caller reuses the same buffer.',
 ['histories','inputs'], 'all real inputs; evaluation orders in which every ordered pair of operations (other inputs, metadata, output size, formats, PyTorch state reload and conversion) occurs consecutively, the transform re-evaluated after each; all transforms, four backends',
 'Tests build a fresh object per evaluation and never look at the input afterwards.',
 [S1+'frontend/base_frontend.py', S1+'core/scattering1d.py', S1+'core/timefrequency_scattering.py', S2+'core/scattering2d.py', S3+'core/scattering3d.py', S1+'frontend/torch_frontend.py', S2+'frontend/torch_frontend.py', S3+'frontend/torch_frontend.py'], [('no shared mutable state','frontends and cores')])
prop('C25', 'All backends compute the same function',
 'For identical parameters, the NumPy, PyTorch, TensorFlow and JAX versions of each transform compute the same function of the signal: same shape, same coefficient order, same values for every input up to rounding of the filter values, including the filters they build.',
 ['inputs','configurations'], 'all real inputs with the filters that each frontend really builds; bounded family of configurations of all four transforms; filter values compared up to single-precision rounding',
 'Tests compare each backend with stored results for one input and default parameters.',
 [K+'backend/numpy_backend.py',K+'backend/torch_backend.py',K+'backend/tensorflow_backend.py',K+'backend/jax_backend.py']+BK('scattering1d')+BK('scattering2d')+BK('scattering3d'), [('frontends','numpy/torch/tensorflow/jax frontends')])
prop('C26', 'The PyTorch modulus has the exact gradient everywhere',
 'For all complex inputs and all incoming gradients, the gradient of the PyTorch modulus is the incoming gradient times the unit phase vector, and exactly zero where the input is zero, never undefined. Gradients of a whole PyTorch scattering transform are finite and exact derivatives of its output, including for constant and zero signals (where a modulus vanishes, it contributes zero).',
 ['inputs'], 'all complex inputs including zero and all upstream gradients (shapes up to 2x3); whole transforms: all inputs for which the traced backward pass is compared with symbolic differentiation of the traced forward pass',
 'Tests use finite differences at random points and one zero vector.',
 [K+'backend/torch_backend.py'], [('backward','ModulusStable.backward')])
prop('C27', 'PyTorch filters live in module state and are what evaluation uses',
 'Every filter of a PyTorch transform is registered in the module state under its own name, at every resolution, and evaluation uses the values currently in that state: after loading another state or converting the module, results change accordingly and equal those of a transform built with these filters. State is complete: loading it into a second transform of the same configuration makes both compute the same function.',
 ['histories','inputs','configurations'], 'all filter values (symbolic state) and all inputs, for 1D, joint, 2D and 3D transforms in a bounded family of configurations',
 'Tests move modules between devices at most; no test distinguishes buffers from construction-time filters.',
 [S1+'frontend/torch_frontend.py', S2+'frontend/torch_frontend.py', S3+'frontend/torch_frontend.py'], [('buffers','register_filters, load_filters')])
prop('C28', 'Keras layers: declared output shapes and configuration match behaviour',
 'For every configuration, the output shape a Keras scattering layer declares equals the shape it produces, all constructor arguments take effect, and the configuration it reports is complete: a layer rebuilt from it computes the same function.',
 ['configurations','inputs'], 'all image/signal sizes (symbolic, up to 2^16) for the declared shape against the size law; bounded configurations for the real layers; configuration round trip for arbitrary constructor arguments (symbolic)',
 'Tests check one shape per layer.',
 [S1+'frontend/keras_frontend.py', S2+'frontend/keras_frontend.py', K+'frontend/keras_frontend.py'], [('shape inference','compute_output_shape'),('configuration','get_config')])
prop('C29', 'Scikit-learn transformers flatten exactly the NumPy transform',
 'For every input matrix with one flattened signal per row, the scikit-learn transformer returns one row per signal holding every coefficient of the NumPy transform of that signal in order, for 1D, 2D, 3D and joint transforms; fitting changes nothing and a clone of the transformer computes the same function.',
 ['inputs','configurations'], 'all real inputs; small configurations of the transforms, batches up to 3',
 'Tests compare one random batch.',
 [K+'frontend/sklearn_frontend.py', S1+'frontend/sklearn_frontend.py', S2+'frontend/sklearn_frontend.py', S3+'frontend/sklearn_frontend.py'], [('predict','ScatteringTransformerMixin')])
prop('C30', 'Frontend and backend selection is consistent and refuses mismatches',
 'Requesting a frontend by name builds the transform of that frontend with the given parameters, case-insensitively; unknown frontends and backends that do not belong to the frontend are refused with a clear error; all parameters reach the transform unchanged. Filterbanks in which a second-order filter cannot follow are refused at construction.',
 ['configurations'], 'all frontend/backend strings over a symbolic choice of names and cases, all four transforms; filterbanks with arbitrary scales and frequencies (up to 3 filters per layer)',
 'Tests check a couple of names.',
 [K+'frontend/entry.py', K+'frontend/base_frontend.py', S1+'frontend/entry.py', S2+'frontend/entry.py', S3+'frontend/entry.py'], [('dispatch','ScatteringEntry'),('backend lookup','_instantiate_backend'),('filter check','_check_filterbanks')])
prop('C31', 'Cache directory resolution follows argument, environment, default',
 'The base cache directory is the one passed explicitly, otherwise the one named by the environment, otherwise the default folder in the user home; a named cache lies directly beneath it. An existing directory is returned untouched, a missing one is created when permitted, and otherwise refused with an error without touching the file system.',
 ['configurations','histories'], 'all combinations of explicit base, environment value, name, permission and prior existence, with arbitrary (symbolic) printable ASCII path strings, names not starting with a slash',
 'Tests cover two or three combinations with fixed names.',
 [K+'caching.py'], [('lookup','find_cache_base_dir, get_cache_dir')])
prop('C32', 'Scattering scales with the signal and ignores its sign',
 'For every signal and every real factor, multiplying the input by the factor multiplies order-zero coefficients by the factor and all moduli-based coefficients by its absolute value; order-zero coefficients are additive. A 3D integral of power q scales by the q-th power of the absolute factor. The transform of the zero signal is zero.',
 ['inputs'], 'all real signals and factors; bounded configurations of the 1D, 2D, 3D and joint transforms in four backends (traced real code)',
 'Tests never vary amplitude.',
 [S1+'core/scattering1d.py', S2+'core/scattering2d.py', S1+'core/timefrequency_scattering.py', K+'backend/torch_backend.py', K+'backend/numpy_backend.py'], [('homogeneity of linear steps and modulus','cores and backends')])
prop('C33', 'GPU backends agree with the CPU backends',
 'The CUDA implementations compute the same function as the PyTorch CPU backend for every input.',
 ['inputs'], 'all inputs', 'No GPU in the test environment.',
 [K+'backend/torch_skcuda_backend.py', S1+'backend/torch_skcuda_backend.py', S2+'backend/torch_skcuda_backend.py', S3+'backend/torch_skcuda_backend.py'], [('CUDA kernels','SubsampleFourier, Modulus, cdgmm')])
prop('C34', 'Scattering is contractive and stable to deformations',
 'With its real filters, the scattering transform does not increase distances between signals beyond a constant close to one and changes little under small time warps.',
 ['inputs'], 'all pairs of signals, all small deformations', 'Tests cannot range over all signals; the statement is analytic.',
 [S1+'filter_bank.py', S2+'filter_bank.py'], [('Littlewood-Paley bounds of the filterbank','filter banks')])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P: f.write(json.dumps(d) + '\n')
    print(len(P))
