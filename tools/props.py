NA = {}
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, obs, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, obs=obs, note=note))


FIT = 'qetpy/core/_fitting.py'
STD = ('decides the claims for every real value of the symbolic inputs within the stated sizes; '
       'floats modelled as exact reals; ')

P('P01', 'Fixed-time optimum filter gives the weighted least-squares amplitude and chi2',
  'For every trace, template, noise PSD and sample rate, the optimum filter at a fixed start time '
  '(and with no delay) returns the amplitude minimising the noise-weighted squared difference between '
  'trace and shifted template, together with exactly that minimum as chi2, where AC coupling drops the '
  'zero-frequency bin and integral normalisation rescales the template to unit integral. '
  'The energy resolution is the inverse square root of the template\'s noise-weighted power. '
  'Hence amplitudes are linear in the trace, chi2 scales with its square, and adding a template of '
  'amplitude k at the fitted time raises the amplitude by k and leaves chi2 unchanged.',
  ['inputs', 'configurations'],
  'all trace/template/PSD values, sample rates, couplings, normalisations, time offsets',
  'tests compare one stored number for one simulated trace; they cannot cover all traces, templates, '
  'PSDs, offsets and couplings',
  [FIT], [('OptimumFilter.ofamp_nodelay', FIT), ('ofamp (withdelay=False)', FIT),
          ('OptimumFilter.energy_resolution', FIT)],
  ['return values of the no-delay fits and the energy resolution'],
  STD + 'trace lengths 2-8')

P('P02', 'The start-time search returns the best allowed start time',
  'For every trace, a time-delay optimum filter fit returns a start time on the sample grid inside '
  '(or, on request, outside) the requested window and compatible with the requested pulse direction, '
  'with the least-squares amplitude and chi2 of that time, and no other allowed time has a smaller chi2. '
  'The window is the requested number of bins centred on the trace centre plus the requested offset, '
  'clipped to the trace; when no allowed time is left the fit returns zero amplitude, zero time and the '
  'no-pulse chi2. '
  'Window centres off the trace, non-positive windows and unknown pulse directions are refused with an error.',
  ['inputs', 'configurations'],
  'all traces, all window lengths/centres/inside/outside/pulse directions, odd and even lengths',
  'tests fit one trace with a few windows; off-by-one errors in the window, parity or tie cases need '
  'every window and every trace',
  [FIT], [('_argmin_chi2', FIT), ('_get_pulse_direction_constraint_mask', FIT),
          ('OptimumFilter.ofamp_withdelay', FIT), ('ofamp', FIT)],
  ['amplitude, start time and chi2 returned by the delay fits'],
  STD + 'every window configuration at trace length 4, selected ones at 3-10')

P('P03', 'A filter object answers the same whatever was called on it before',
  'For every sequence of fits on an OptimumFilter object, including replacing its trace with '
  'update_signal between calls, each later result equals the result of a fresh object built from the '
  'current trace, template and PSD. Repeating a call reproduces its result, and the caller\'s trace, '
  'template and PSD arrays are never modified.',
  ['histories', 'inputs'],
  'all call sequences (two fits, trace replacement, a fit, then any fit) and all traces',
  'the cached intermediate arrays are only stale or polluted after specific call orders',
  [FIT], [('OptimumFilter caches and update_signal', FIT)],
  ['return values of every OptimumFilter method after a history'],
  STD + 'trace lengths 3-4, histories of up to 5 calls, fixed rational template and PSD')

P('P04', 'Stand-alone functions, filter objects and batches give the same results',
  'For the same trace, template, PSD and options the stand-alone functions (ofamp, ofamp_pileup, '
  'ofamp_pileup_stationary, chi2lowfreq, chi2_nopulse) return what the corresponding OptimumFilter '
  'methods return. Fitting a batch of traces at once gives each trace the values it gets alone, and '
  'asking for the amplitude resolution only appends it to the result.',
  ['inputs', 'configurations'],
  'all traces and options', 'two separate implementations that must agree for all traces and options',
  [FIT], [('ofamp', FIT), ('ofamp_pileup', FIT), ('ofamp_pileup_stationary', FIT), ('chi2lowfreq', FIT),
          ('chi2_nopulse', FIT)],
  ['return values of both implementations'],
  STD + 'trace lengths 2-5, batches of 1-3')

P('P05', 'Pile-up fits return the least-squares amplitudes and minimal chi2',
  'For every trace and any given first pulse (amplitude and real-valued time), the pile-up fit returns '
  'the second-pulse amplitude and allowed grid time minimising the two-pulse chi2, and that chi2; when the '
  'first pulse is not given the stand-alone function uses the single-pulse fit for it. '
  'The stationary pile-up fit returns the jointly optimal amplitudes of a pulse at the trace centre and one '
  'at the returned allowed grid time, with minimal two-pulse chi2 (when both times coincide the '
  'amplitudes sum to the single-pulse amplitude). '
  'If no allowed time satisfies the pulse direction, the fit returns zero second amplitude and time with the '
  'one-pulse chi2.',
  ['inputs', 'configurations'],
  'all traces, first-pulse amplitudes/times, windows, inside/outside, directions',
  'tests use one simulated pile-up; wrong cross terms or truncated times appear only for other times',
  [FIT], [('OptimumFilter.ofamp_pileup_iterative', FIT), ('OptimumFilter.ofamp_pileup_stationary', FIT),
          ('ofamp_pileup', FIT), ('ofamp_pileup_stationary', FIT)],
  ['amplitudes, times and chi2 of pile-up fits'],
  STD + 'trace lengths 3-6')

P('P06', 'The baseline fit minimises chi2 jointly over pulse and constant baseline',
  'For every trace, the unconstrained baseline fit returns the start time, amplitude and chi2 of the '
  'joint least-squares fit of a shifted template plus a free constant baseline, the zero-frequency noise '
  'being used for the baseline. With a window or pulse direction, the baseline of the unconstrained fit is '
  'subtracted first and the fit returns the best amplitude, time and chi2 among the allowed times for the '
  'remaining trace (zero amplitude and time with that trace\'s no-pulse chi2 if none is allowed).',
  ['inputs', 'configurations'], 'all traces, windows, directions, couplings',
  'tests fit one trace with zero offset; wrong coupling handling shows only for other baselines',
  [FIT], [('OptimumFilter.ofamp_baseline', FIT)], ['amplitude, time, chi2 of ofamp_baseline'],
  STD + 'trace lengths 3-4 (5-6 with impulse template in thorough)')

P('P07', 'Low-frequency chi2, no-pulse chi2 and time resolution are their definitions',
  'For every trace, amplitude, time and cutoff, the low-frequency chi2 is the noise-weighted squared '
  'residual summed over exactly the frequencies with absolute value at most the cutoff, so it is '
  'non-negative, grows with the cutoff, and equals the full chi2 at full bandwidth. The no-pulse chi2 is '
  'the noise-weighted power of the trace. The time resolution is the inverse square root of amplitude '
  'squared times the noise-weighted power of the template\'s time derivative, regardless of pulse sign.',
  ['inputs'], 'all traces, templates, PSDs, cutoffs (including ones equal to a frequency bin)',
  'inclusive/exclusive cutoffs and negative frequencies matter only at particular cutoffs',
  [FIT], [('OptimumFilter.chi2_lowfreq', FIT), ('chi2lowfreq', FIT), ('OptimumFilter.chi2_nopulse', FIT),
          ('chi2_nopulse', FIT), ('OptimumFilter.time_resolution', FIT)],
  ['return values'], STD + 'trace lengths 2-8')

P('P08', 'Sub-bin interpolation returns the vertex of the chi2 parabola',
  'For every trace, with interpolation requested, the delay, iterative pile-up and baseline fits return the '
  'vertex of the parabola through chi2 at the best grid time and its two (circularly) neighbouring grid '
  'times, chi2 at that vertex, and the amplitude from the parabola through the same three amplitudes. '
  'Unconstrained, the result is at most half a sample from the best grid time and its chi2 is not larger '
  'than there. If no allowed time is left the un-interpolated fallback is returned.',
  ['inputs', 'configurations'], 'all traces and every best bin including both trace ends',
  'tests interpolate one pulse in mid-trace; end-of-trace bins and windows need specific traces',
  [FIT], [('OptimumFilter._interpolate_of', FIT), ('OptimumFilter._interpolate_parabola', FIT)],
  ['amplitude, time and chi2 with interpolate_t0=True'], STD + 'trace lengths 3-6')

P('P09', 'Non-linear pulse and muon-tail fits minimise and report the documented chi2',
  'For every trace, PSD and parameters, the 1- to 4-pole models and the muon-tail model are the Fourier '
  'transforms of their documented sums of exponentials delayed by t0 (pulse height as amplitude when '
  'scaling is on), their time-domain forms start at the sample nearest t0, and the minimised residuals are '
  'the real and imaginary parts of data minus model over the square root of PSD/errscale, the zero frequency '
  'being suppressed in the n-pole fits. '
  'The fit starts at the given guess (automatically: at the pulse or template maximum), keeps the given or '
  'documented default bounds, and returns the solver\'s point with covariance inverse(J^T J), errors from its '
  'diagonal and the chi2 of that point (per degree of freedom for n-pole fits). '
  'Guesses of the wrong length and a 1-pole fit without rise time are refused with ValueError.',
  ['inputs', 'configurations'], 'all traces, PSDs, model parameters, pole numbers, guesses and bounds',
  'tests fit one pulse whose rise is faster than its fall; wrong model terms, scaling or weights cancel there',
  [FIT], [('OFnonlin', FIT), ('MuonTailFit', FIT)],
  ['model arrays, residual function given to the solver, returned parameters, errors and chi2'],
  STD + 'trace lengths 2-5; the external least-squares solver is replaced by an arbitrary answer')

NSMB = 'qetpy/core/_of_nsmb.py'
P('P10', 'Signal-plus-background fits are the joint weighted least-squares optimum',
  'For every trace and set of independent templates, of_nsmb and of_nsmb_con return the start bin in the window '
  '(negative bins count from the end, delays beyond half the trace are negative times) with the smallest '
  'noise-weighted chi2 of all signal and background templates, the least-squares amplitudes there, and the matching '
  'chi2, low-frequency chi2 (first lfindex bins) and residual trace; of_nsmb_con also returns the same for every '
  'extra window (bins counted from half a trace before zero) and the vertex of the chi2 parabola with its amplitude. '
  'With polarity constraints the chi2 and residual still belong to the returned amplitudes, which for one signal and '
  'one background are the best among all amplitudes of allowed sign, and of_mb returns the background-only fit '
  '(least-squares if the signs are allowed, a single disallowed amplitude zero, never below the unconstrained chi2). '
  'The slope/constant and periodic-trigger template builders return exactly nbin samples of the documented shapes, '
  'shifts, polarities and the search window without the notched bins.',
  ['inputs', 'configurations'], 'all traces, windows, polarity constraints and template samples',
  'tests fit one simulated trace with five templates and ideal windows; wrong cross terms, signs or edge bins need '
  'specific traces', [NSMB],
  [('of_nsmb_setup', NSMB), ('of_nsmb', NSMB), ('of_nsmb_con', NSMB), ('of_mb', NSMB),
   ('get_slope_dc_template_nsmb', NSMB), ('maketemplate_ttlfit_nsmb', NSMB)],
  ['amplitudes, delays, chi2, residuals; built templates'],
  STD + 'trace lengths 3-6, one signal and one or two backgrounds')

NOI = 'qetpy/core/_noise.py'
UTL = 'qetpy/utils/_utils.py'

P('P11', 'Power spectral densities conserve power, one-sided and two-sided',
  'For every trace or stack of traces (also with a channel axis) calc_psd returns, per channel, the average over '
  'traces of |DFT|^2/(N fs) with its frequencies; summed times the bin width both the two-sided and the one-sided '
  'PSD give the mean square of the traces. '
  'The one-sided PSD (folded_over or foldpsd) has N//2+1 non-negative frequencies, twice the two-sided values except '
  'at zero frequency and, for even N, at the Nyquist frequency. '
  'Input arrays are not modified.',
  ['inputs'], 'all traces, sample rates, odd and even lengths, stack shapes',
  'a bin doubled or left out is invisible in averages over simulated noise', [NOI],
  [('calc_psd', NOI), ('foldpsd', NOI)], ['PSD values and frequencies'],
  STD + 'trace lengths 1-12, stacks up to 3 traces / 2 channels; folding up to length 32')

P('P12', 'The Noise class returns the true spectra, cross spectra and correlations',
  'For every set of traces, Noise divides them by the gain, removes exactly the least-squares slope of every trace on '
  'request, and its psd, real_psd and imag_psd are the trace averages of the one-sided power of the transform and of '
  'its real and imaginary parts; csd is the trace average of the Hann-windowed mean-subtracted cross spectra, '
  'Hermitian in the channels, with the means and standard deviations of its real and imaginary part (non-positive '
  'values filled by interpolation). '
  'corrcoeff is the correlation over traces of the channel magnitudes, and uncorrnoise is one over the diagonal of the '
  'inverse cross-spectral matrix, at most the total, with corrnoise the rest of real_csd. '
  'fill_negatives replaces exactly the values <= 0 by linear interpolation between positive neighbours (nearest at the '
  'ends); wrong shapes or channel counts are refused with ValueError.',
  ['inputs'], 'all traces, gains, sample rates, cross-spectral matrices and sign patterns',
  'tests compare a few numbers of one data set; conjugation, axis or scale errors need general channels', [NOI],
  [('Noise', NOI), ('fill_negatives', UTL), ('slope', UTL)],
  ['psd, csd, corrcoeff, uncorrnoise, corrnoise attributes'],
  STD + 'trace lengths 2-8, 1-3 traces and channels; scipy.signal.csd is modelled')

P('P13', 'PSD smoothing is monotone and simulated noise follows its PSD',
  'For every array, make_decreasing keeps exactly the values that are smaller than all earlier ones and interpolates '
  'linearly in between (extrapolating after the last), so the result never increases, and leaves its input alone. '
  'smooth_psd applies this to the frequencies from zero to Nyquist of a symmetric two-sided PSD and returns a '
  'symmetric PSD of the same length; decreasing PSDs are unchanged. '
  'gen_noise returns traces whose discrete Fourier transform is that of unit white noise times sqrt(PSD fs), without '
  'the zero frequency if its PSD is infinite, and leaves the PSD array alone.',
  ['inputs'], 'all PSDs, orderings, lengths and random numbers',
  'orderings such as a minimum in the first bin and odd lengths are not sampled by the tests', [NOI, UTL],
  [('smooth_psd', NOI), ('gen_noise', NOI), ('make_decreasing', UTL)],
  ['smoothed PSDs, generated traces'], STD + 'up to 12 bins; random numbers are arbitrary reals')

P('P14', 'Shifting, aligning, filtering and templates move every sample correctly',
  'For every array (of integers, too) and shift, shift moves the samples right (positive) or left (negative), interpolates linearly for '
  'fractions of a sample and fills the gap with the fill value, without changing its input. '
  'align_traces low-pass filters the first n_cut samples with the given cutoff and sample rate and shifts every '
  'trace by the whole number of samples that maximises the correlation of its normalised filtered start with that of '
  'the first trace, masking samples without data; lowpassfilter applies the Butterworth filter of the given order and '
  'cutoff (relative to the Nyquist frequency) forwards and backwards. '
  'make_template is the two-exponential pulse starting at the trace centre plus offset, zero before, with maximum one.',
  ['inputs', 'configurations'], 'all arrays, shifts, fill values, time constants, offsets',
  'negative, fractional and beyond-the-end shifts behave differently from the tested ones', [UTL],
  [('shift', UTL), ('align_traces', UTL), ('lowpassfilter', UTL), ('make_template', UTL)],
  ['returned arrays and shifts'],
  STD + 'arrays of 1-8 samples, all shifts -n..n; scipy filter design and filtering are replaced by recorders')

P('P15', 'Offsets, powers, energies and conductances follow their definitions',
  'For all inputs, calc_offset returns the mean over traces and over the largest whole number of periods (all samples '
  'if not a dIdV) and its standard error; slope is the least-squares slope. '
  'powertrace_simple is the Joule power (I - offset) Vbias - Rload (I - offset)^2, energy_absorbed the trapezoidal '
  'integral of baseline power minus trace power in eV (baseline given or averaged over the samples before indbasepre '
  'and from indbasepost on, in time by fs or by the time array), and get_offset_from_muon the offset, resistance, '
  'current and power for a pulse saturating (200 samples from its maximum) at the normal-state current. '
  'estimate_g is n P Tc^(n-1) / (Tc^n - Tbath^n), with its error propagated from the power error or the covariance.',
  ['inputs', 'configurations'], 'all traces, biases, resistances, temperatures, exponents, baselines',
  'rounding of the number of periods, extra axes and covariance terms do not occur in the sampled cases', [UTL],
  [('calc_offset', UTL), ('slope', UTL), ('powertrace_simple', UTL), ('energy_absorbed', UTL),
   ('get_offset_from_muon', UTL), ('estimate_g', UTL)],
  ['returned values'], STD + '1-3 traces of 1-8 samples, exponents 1-6')

P('P16', 'Resampling makes the sample rate a multiple of the signal frequency',
  'For all positive integers fs and sgfreq (of any type), resample_factors returns positive integers up and down such that fs up / '
  'down is an integer multiple of sgfreq, and (1, 1) if it already is. '
  'resample_data resamples the data by these factors along the given axis and returns the new sample rate.',
  ['inputs'], 'all pairs of integers',
  'prime powers and several primes in the denominator are not among the tested pairs', [UTL],
  [('resample_factors', UTL), ('resample_data', UTL)], ['returned factors, arrays and rates'],
  'frequencies g N and g D, g from 1 to 1000, N and D coprime with up to 2 symbolic primes below 100 each; sympy\'s '
  'factorisation is assumed')

IVF = 'qetpy/core/_iv.py'
IBF = 'qetpy/core/_ibis.py'
P('P17', 'IV gives offsets, resistances and powers of the bias sweep with their errors',
  'For every number of temperatures, channels and bias points, IV finds in the normal points the weighted '
  'least-squares line, whose intercept is ioff and whose inverse slope is rfit (errors from its covariance), rnorm = '
  'rfit - rload, ites = dites - ioff, r0 = vb/ites - rload, ptes = ites vb - ites^2 rload with errors propagated in '
  'quadrature; automatic normal points are the leading ones before the first whose inclusion raises the reduced chi2 '
  'by more than the tolerance. '
  'Load resistances given as number, per channel, per temperature and channel, or per point apply to exactly these '
  'cells, and NaN padding stays NaN and changes nothing else. '
  'Normal points may be an index list, a range or a number; wrong shapes and names are refused (ValueError).',
  ['inputs', 'configurations'], 'all bias sweeps, load resistances, errors, index choices',
  'tests use one channel and temperature and do not look at errors, padding or the other forms of the load resistance',
  [IVF], [('IV', IVF)], ['attributes after calc_iv'],
  STD + '1-2 temperatures and channels, 2-5 bias points; curve_fit is the exact weighted least-squares fit')

P('P18', 'IBIS gives offsets and parasitics from the normal and superconducting lines',
  'For every sweep, IBIS fits weighted lines i = a + s ib through the normal points (total resistance rsh/s_n) and, on '
  'request, through the superconducting ones (rp = rsh/s_sc - rsh, and the crossing of the two lines is the bias and '
  'current offset); else rp is the given one (0.005 by default), the bias offset zero and the current offset the '
  'intercept; given xoff, yoff replace them. '
  'Then rnorm = rsh/s_n - rsh - rp, vb = rsh ib_true, r0 = rsh ib_true/ites - rsh - rp and ptes = r0 ites^2, and all '
  'errors (offsets from the four line parameters, resistances, vb, r0, ptes) are the linear propagation in quadrature '
  'of those of ib, i, offsets, rsh and rp. '
  'Guesses of rp may be a number, per channel, per cell or per point; NaN padding stays NaN and changes nothing else, '
  'NaN in the superconducting points and wrong shapes or names are refused (ValueError).',
  ['inputs', 'configurations'], 'all sweeps, resistances, errors, index choices, forms of the guess and offsets',
  'tests check a few values of one sweep; derivatives in the error propagation are not looked at',
  [IBF], [('IBIS', IBF)], ['attributes after analyze'],
  STD + '1-2 temperatures and channels, 3-5 bias points; curve_fit is the exact weighted least-squares fit')

DB = 'qetpy/core/didv/_base_didv.py'
DF = 'qetpy/core/didv/_didv.py'
DPR = 'qetpy/core/didv/_didv_priors.py'
P('P19', 'Complex impedance, admittance and square-wave response follow the TES model',
  'For all frequencies and small-signal parameters, compleximpedance and complexadmittance give the documented one-, '
  'two- or three-pole TES impedance (chosen by the parameters given) and its inverse, for scalars and arrays, and '
  'refuse incomplete sets with ValueError. '
  'squarewaveresponse is the sum over all harmonics the time axis resolves of the zero-mean square wave (low for the '
  'first dutycycle of the period, then high, peak to peak sgamp rsh) times that admittance. '
  'stdcomplex gives the standard deviations of real and imaginary part along the axis.',
  ['inputs', 'configurations'], 'all frequencies, parameters, amplitudes, duty cycles',
  'tests evaluate one parameter set; sign and scale errors can hide in fits of simulated data made by the same code',
  [DB], [('compleximpedance', DB), ('complexadmittance', DB), ('squarewaveresponse', DB), ('stdcomplex', DB)],
  ['returned values'], STD + '1-3 frequencies, 2-12 samples, 1-3 periods')

P('P20', 'dIdV processing turns traces into the mean admittance with its errors',
  'For all traces without NaN (others are dropped), processing keeps the largest whole number of periods, divides by '
  'the gain, and its mean trace, offset (mean of the trace means) with standard error, and time axis (zero at dt0, '
  'plus half a period if add180phase) and frequencies follow; the mean admittance at every driven harmonic is the mean '
  'of the trace spectra over the spectrum of the square wave (sgamp rsh, dutycycle), with standard errors of real and '
  'imaginary part, and every other frequency is excluded by a virtually infinite error. '
  'Processing a simulated response gives back its admittance and offset, processing again changes nothing, and '
  'didvinitfromdata puts the same results, time axis and top-slope samples (25 to 48 percent of each period after '
  'dt0) into an object. '
  'Sample rates that are no multiple of the signal frequency are refused (ValueError) or resampled if autoresample.',
  ['inputs', 'configurations', 'histories'], 'all traces, gains, duty cycles, offsets, repeated processing',
  'tests fit one simulated set; wrong phases, periods lost to rounding or repeated shifts do not show there',
  [DB, DF], [('_BaseDIDV.processtraces', DB), ('_BaseDIDV._deconvolvedidv', DB), ('stdcomplex', DB),
             ('didvinitfromdata', DF)],
  ['attributes after processing'], STD + '1-3 traces of 4-17 samples, 1-4 periods')

P('P21', 'dIdV fits minimise the weighted distance and report consistent parameters',
  'For every processed admittance, DIDV.dofit minimises the sum of squared real and imaginary residuals over their '
  'errors below fcutoff of the one-, two- or three-pole admittance with a time shift, starting at dt0 and inside '
  'bounds whose signs (A, tau2, tau3 positive; B, C, tau1 all positive or, with the top slope above the mean, all '
  'negative) follow from the trace. '
  'The result has covariance (J^T J)^-1, its errors, the cost, small-signal parameters describing the same impedance '
  'with the given rsh, rp, r0, the zero-frequency admittance and the pole fall times from short to long. '
  'Fits of other pole numbers keep their results, which are empty before the fit, and other numbers of poles are '
  'refused (ValueError).',
  ['inputs', 'configurations', 'histories'], 'all admittances, errors, cutoffs, fitted parameters and fit orders',
  'tests compare rounded fit results of one simulation; conversions with loop gain below one or other fit orders are '
  'not sampled', [DB, DF],
  [('DIDV._fitdidv', DF), ('DIDV.dofit', DF), ('DIDV._fitresult', DF), ('_BaseDIDV._converttotesvalues', DB),
   ('_BaseDIDV._findpolefalltimes', DB), ('_BaseDIDV._guessdidvparams', DB), ('_BaseDIDV.fitresult', DB)],
  ['minimised function, bounds, fitresult'], STD + '4-8 frequencies; the scipy optimizers are recorders')

P('P22', 'dIdV fits with priors minimise data and prior distance together',
  'For every processed admittance, prior values and prior covariance (zero for unknown parameters), DIDVPriors.dofit '
  'minimises the weighted squared distance below fcutoff between the admittance times rsh and the one-, two- or '
  'three-pole model (in the small-signal parameters and a time shift) plus the squared distance of the parameters from '
  'the priors in the metric of the inverse covariance, with one sigma at an increase by one. '
  'The fit starts at the prior of each known parameter, else at the fit without priors started at the time offset '
  '(shifted once by add180phase), and only the time shift may be negative. '
  'The result holds the parameters, covariance, errors, cost, priors, zero-frequency admittance and pole fall times '
  'from short to long; priors and covariance are not modified.',
  ['inputs', 'configurations'], 'all admittances, errors, priors, covariances, fitted values',
  'tests compare rounded results with one prior; correlated priors, scale and start values do not matter there',
  [DPR, DB], [('DIDVPriors._fitdidv', DPR), ('DIDVPriors._guessparams', DPR), ('DIDVPriors.dofit', DPR),
              ('DIDVPriors._fitresult', DPR)],
  ['minimised function, start values, fitresult'], STD + '5-8 frequencies; Minuit is a recorder')

SIMF = 'qetpy/sim/_sim.py'
CUTF = 'qetpy/cut/_cut.py'
P('P23', 'TES noise model follows the Irwin-Hilton theory, and resolution from it',
  'For all parameters and frequencies, TESnoise gives the Irwin-Hilton dI/dV and dI/dP and from them the load, TES, '
  'thermal-fluctuation and SQUID noise as voltage, current and power noise, their totals as the sums, and the '
  'superconducting and normal-state variants, at the frequencies of the object or of the call. '
  'loadfromdidv takes the parameters of the transition, superconducting or normal-state dIdV fit (rnormal required for '
  'normal; unknown noise types are ValueErrors). '
  'energy_res_estimate is the inverse square root, in eV, of the one-sided integral of 4|p|^2/S with p = collection_eff/(1 + 2 pi i f tau_collect), equal for one-sided '
  'and two-sided inputs in either frequency order, and modifies no input.',
  ['inputs', 'configurations'], 'all resistances, temperatures, gains, time constants, noise levels, frequencies',
  'tests only plot or compare nothing of the noise model; a wrong factor changes no test', [SIMF, 'qetpy/core/didv/_didv.py'],
  [('TESnoise', SIMF), ('loadfromdidv', SIMF), ('energy_res_estimate', SIMF), ('ballistic/diffusive f_tfn', SIMF)],
  ['noise spectra, parameters, resolution'], STD + '1-5 frequencies, power-law exponents 1-5')

P('P24', 'Robust statistics keep exactly the points their rules allow',
  'removeoutliers (infinities removed first, optional interval) repeats, while the skewness of the kept points exceeds '
  'the target, keeping only points nearer to their median than the closer extreme of the data, never dropping all; '
  'iterstat iterates mean and standard deviation of points within cut sigma until within the precision, then reports '
  'mean, deviation and mask of the kept points, or the truncated-normal maximum-likelihood values if unbiased. '
  'itercov does the same for vectors by chi2 (limit ndim + nsigma sqrt(2 ndim), or a threshold) and refuses '
  'one-dimensional data or unequal lengths. '
  'Masks do not depend on unit, offset (both) or order of the data, which stay unmodified.',
  ['inputs', 'configurations', 'orderings'], 'all data values and orders, cuts, precisions, targets',
  'tests run one random data set and compare means roughly', [CUTF],
  [('removeoutliers', CUTF), ('iterstat', CUTF), ('itercov', CUTF), ('_UnbiasedEstimators', CUTF)],
  ['returned statistics and masks'], STD + '3-6 points with up to 3 symbolic values')

P('P25', 'Automatic cuts select by amplitude, slope, baseline and chi2 in sequence',
  'pileupcut, slopecut, baselinecut and chi2cut keep the traces that the chosen outlier algorithm (removeoutliers or '
  'iterstat with nsig) keeps of the absolute filter amplitude (optionally mean-subtracted), of end minus start level, '
  'of the start level and of the chi2; levels average the first and last tenth, or the flat parts of a dIdV period. '
  'autocuts applies the enabled cuts in sequence, each to the traces left, with its own nsig (pileup2 for dIdV only, '
  'chi2 with iterstat), and symmetrizedist keeps as many values in each histogram bin as in its mirror. '
  'get_muon_cut flags traces at the threshold fraction of their maximum nsatbins later; unknown algorithms are '
  'ValueErrors and traces stay unmodified.',
  ['inputs', 'configurations'], 'all trace values, cut options, random choices',
  'tests run autocuts on one simulated data set with default options', [CUTF],
  [('autocuts', CUTF), ('pileupcut', CUTF), ('slopecut', CUTF), ('baselinecut', CUTF), ('chi2cut', CUTF),
   ('symmetrizedist', CUTF), ('get_muon_cut', CUTF)],
  ['masks'], STD + '3-6 traces of 10-64 samples with up to 3 symbolic values')
