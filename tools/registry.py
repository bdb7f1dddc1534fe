#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json.

Properties whose module exists under hmon/props are claimed in MANIFEST.json.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe,
         state=None):
    assert len(title) <= 80, title
    anchors = {'files': ['harold/' + f for f in files],
               'mechanism': [{'name': n, 'where': 'harold/' + w}
                             for n, w in mech],
               'observe_at': observe, 'hook_needed': False}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': 'harold/' + w}
                            for n, m, w in state]
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


CL = '_classes.py'

prop('C01', 'Converting between representations keeps the transfer matrix',
     'Converting a transfer function model to a state space model, or back, '
     'gives a model with the same transfer matrix at every complex point, the '
     'same number of inputs and outputs and the same sampling period. The '
     'conversion succeeds for every well scaled proper model of moderate '
     'order, also for static gains, single rows or columns, zero channels and '
     'repeated or shared poles, and in the raw matrices/polynomials output '
     'form. Models already in the requested form come back unchanged.',
     ['inputs'], 'all well scaled proper models up to 5x5 channels and '
     'moderate order, continuous and discrete, built in any documented way',
     'The tests convert a handful of models and compare stored arrays; the '
     'numerics depend on shared denominators, zero channels and degrees.',
     [CL, '_polynomial_ops.py'],
     [('transfer_to_state', CL + ':transfer_to_state'),
      ('state_to_transfer', CL + ':state_to_transfer'),
      ('least common multiple of denominators',
       '_polynomial_ops.py:haroldlcm')],
     ['return values of transfer_to_state and state_to_transfer'])

prop('C02', 'Sums, differences and negations add the transfer matrices',
     'For models of either representation, scalars and real arrays whose '
     'sampling periods agree and whose shapes agree or broadcast from a 1x1 '
     'operand, the result of +, binary - and unary - has the sum, difference '
     'or negation of the operand transfer matrices as its transfer matrix, in '
     'either operand order. Mixed operands (transfer with state, dynamic with '
     'static) give the same value as operands of one kind.',
     ['inputs', 'programs'], 'all operand pairs drawn from State, Transfer, '
     'int, float and arrays, static or dynamic, SISO or MIMO; and nested '
     'expressions of such operations',
     'The operators branch on operand kind, gain flags, SISO flags and '
     'shapes; the tests visit a few branches with one model each.',
     [CL], [('Transfer addition', CL + ':Transfer.__add__'),
            ('State addition', CL + ':State.__add__'),
            ('negation and reflected forms', CL + ':Transfer.__neg__')],
     ['return values of the arithmetic operators'])

prop('C03', 'Products multiply the transfer matrices in the written order',
     'For compatible operands G @ H has the matrix product of the two '
     'transfer matrices as its transfer matrix, in the written order, and '
     'multiplication by a scalar scales it. Between transfer functions * is '
     'the elementwise product of equal shapes, a 1x1 operand scales the '
     'other one, and between SISO models * is the series connection. The same '
     'holds for mixed State, Transfer and array operands.',
     ['inputs', 'programs'], 'all operand pairs drawn from State, Transfer, '
     'scalars and arrays, static or dynamic, of all compatible shapes',
     'Order and shape mistakes are invisible on SISO or symmetric examples '
     'and on operands with unit coefficients, which is what the tests use.',
     [CL], [('Transfer products', CL + ':Transfer.__mul__'),
            ('Transfer matrix product', CL + ':Transfer.__matmul__'),
            ('State matrix product', CL + ':State.__matmul__'),
            ('array on the left', CL + ':State.__rmatmul__')],
     ['return values of * and @'])

prop('C04', 'Dividing a model by a scalar and inverting a model are exact',
     'G/s scales the transfer matrix by 1/s and s/G has s times the inverse '
     'transfer matrix of G whenever G is square with invertible feedthrough. '
     'G/H is the product of G with the inverse of H. Models without such an '
     'inverse and non square models are refused with an error instead of '
     'returning a model.',
     ['inputs'], 'all square models with invertible feedthrough, static or '
     'dynamic; and models without a proper inverse',
     'Only one or two inversions are tested; MIMO inverses go through '
     'conversions.',
     [CL], [('reflected division', CL + ':Transfer.__rtruediv__'),
            ('reflected division', CL + ':State.__rtruediv__')],
     ['return values and exceptions of /'])

prop('C05', 'Sampling periods and shapes never mix silently',
     'Every operation combining two models refuses operands with different '
     'sampling periods, and operands whose shapes do not fit or that are not '
     'real numbers, with an error. Every model computed from models with one sampling period carries '
     'exactly that sampling period, continuous time included.',
     ['inputs', 'programs'], 'all binary operations, feedback and the '
     'single-model operations, over all combinations of sampling periods and '
     'shapes',
     'There are dozens of return statements building result models, each of '
     'which has to pass the sampling period along.',
     [CL, '_bd_algebra.py', '_arg_utils.py', '_system_funcs.py'],
     [('operator checks', CL + ':State.__add__'),
      ('equal sampling periods', '_arg_utils.py:_check_equal_dts'),
      ('feedback compatibility', '_bd_algebra.py:_check_for_feedback_ic')],
     ['SamplingPeriod, SamplingSet and shape of results; exceptions'])

prop('C06', 'Models are built faithfully or refused',
     'A model built from scalars, lists, nested lists or arrays of integers '
     'or floats represents exactly the transfer matrix the data spells out, '
     'including scalar and one-row broadcast denominators and leading zeros. '
     'Noncausal entries, zero denominators, mismatched shapes, non square '
     'state matrices, complex and nonnumeric data are refused with a ValueError, '
     'IndexError or TypeError.',
     ['inputs'], 'all documented argument forms of the two model '
     'constructors, valid and invalid',
     'The argument normaliser has many interacting branches on nesting and '
     'type; tests cover chosen forms with chosen sizes.',
     [CL], [('Transfer argument validation',
             CL + ':Transfer.validate_arguments'),
            ('State argument validation', CL + ':State.validate_arguments')],
     ['attributes of constructed models; exceptions'])

prop('C07', 'A model stays coherent through any history of assignments',
     'After any sequence of accepted assignments to the coefficient, matrix '
     'and sampling period attributes, every derived attribute (poles, zeros, '
     'stability, shape, channel and state counts, gain and SISO flags) '
     'equals that of a freshly built model with the same data. A refused '
     'assignment raises an error and leaves the model exactly as it was.',
     ['histories'], 'all sequences of valid and invalid assignments to one '
     'model',
     'Derived data is cached; staleness shows only after particular orders '
     'of assignments and refused assignments.',
     [CL], [('recalculation', CL + ':Transfer._recalc'),
            ('recalculation', CL + ':State._recalc'),
            ('setters', CL + ':State.a')],
     ['public attributes after each assignment'],
     state=[('cached poles, zeros, stability',
             'derived data stored on the model', CL + ':State._recalc')])

prop('C08', 'Indexing selects exactly the requested channels',
     'G[rows, columns] is the model of the selected outputs and inputs: its '
     'transfer matrix is that submatrix in the requested order and its '
     'sampling period is that of G, for integers, negative integers, slices '
     'and index lists. Out of range indices are refused and assignment '
     'through an index is refused without changing the model.',
     ['inputs'], 'all models and all index expressions of integers, slices '
     'and lists',
     'Row/column mix-ups are invisible on square symmetric examples.',
     [CL], [('Transfer indexing', CL + ':Transfer.__getitem__'),
            ('State indexing', CL + ':State.__getitem__')],
     ['models returned by indexing'])

prop('C09', 'Reported poles, stability and damping are those of the model',
     'The reported poles are the poles of the model with multiplicity (the '
     'eigenvalues of the state matrix; the roots of the denominator of a SISO '
     'transfer function). A model is reported stable exactly when all poles '
     'lie strictly inside the stability region of its time domain, and '
     'static gains are stable. The damping/frequency table is that of the '
     'poles, using the equivalent continuous poles for discrete models.',
     ['inputs'], 'all models with poles away from the stability boundary, '
     'and poles exactly at the origin or boundary',
     'Stability regions differ per time domain and the caches are computed '
     'in several places.',
     [CL], [('pole computation', CL + ':State._recalc'),
            ('stability', CL + ':State._set_stability'),
            ('pole table', CL + ':_pole_properties')],
     ['poles, _isstable, pole_properties()'])

prop('C10', 'Transmission zeros are the rank-dropping points of the system',
     'The zeros reported for a model are the finite complex numbers where '
     'its system matrix loses rank, with multiplicity: for SISO models in '
     'lowest terms the numerator roots, and for square models the finite '
     'generalised eigenvalues of the system pencil. No zero is invented or '
     'missed for rectangular or decoupled models either.',
     ['inputs'], 'all well scaled models of moderate order with known zeros, '
     'square and rectangular, with or without feedthrough',
     'The deflation recursion has branches depending on ranks of D, C and '
     'their transposes that the few tested models do not reach.',
     [CL], [('transmission_zeros', CL + ':transmission_zeros'),
            ('deflation', CL + ':_tzeros_reduce')],
     ['return value of transmission_zeros, zeros attribute'])

prop('C11', 'Feedback closes the loop with the requested sign',
     'feedback(G, H) equals (I + G H)^-1 G and with negative=False equals '
     '(I - G H)^-1 G at every complex point, for State, Transfer, scalar '
     'and array arguments in any mix, keeping the sampling period. '
     'Ill-posed loops and incompatible shapes or sampling periods are '
     'refused.',
     ['inputs'], 'all well posed loops of models, scalars and arrays, '
     'static or dynamic, SISO or MIMO',
     'The formula branches on static/dynamic and on which feedthrough is '
     'zero; each branch has its own algebra.',
     ['_bd_algebra.py'], [('feedback', '_bd_algebra.py:feedback')],
     ['return value of feedback; exceptions'])

prop('C12', 'Discretization is the transformation its method names',
     'A discretized model equals the original with the Laplace variable '
     'replaced by the rule of the method (bilinear, forward and backward '
     'differences and their aliases, prewarped bilinear, a user given lft '
     'matrix), and for zoh (foh) it reproduces the sampled response to inputs '
     'held constant (varying linearly) between samples. The result has the requested sampling period '
     'and reports the method used; static gains stay what they are and '
     'discrete models are refused.',
     ['inputs', 'configurations'], 'all continuous models, sampling periods, '
     'methods, aliases, prewarp frequencies and lft matrices',
     'Method variants differ by placement of factors in a 2x2 matrix which '
     'single examples with dt=1 cannot tell apart.',
     ['_discrete_funcs.py'],
     [('discretize', '_discrete_funcs.py:discretize'),
      ('methods', '_discrete_funcs.py:_discretize'),
      ('linear fractional connection',
       '_discrete_funcs.py:_simple_lft_connect')],
     ['return value of discretize'])

prop('C13', 'Undiscretization inverts discretization',
     'Undiscretizing a discretized model with the method it records, or with '
     'the same method named explicitly, gives back the transfer matrix of the '
     'continuous model, and any discrete model undiscretized with a method '
     'and discretized again with the same settings is unchanged. Continuous '
     'models are refused.',
     ['inputs', 'histories', 'configurations'],
     'all models, sampling periods and methods; both directions',
     'The inverse formulas are written separately from the forward ones.',
     ['_discrete_funcs.py'],
     [('undiscretize', '_discrete_funcs.py:undiscretize'),
      ('inverse methods', '_discrete_funcs.py:_undiscretize')],
     ['return value of undiscretize'])

prop('C14', 'Frequency response is the transfer matrix on the boundary',
     'The frequency response returned for a frequency grid is the transfer '
     'matrix evaluated at jw, or at exp(jw dt) for discrete models, for every '
     'grid point in order, with the input grid interpreted in and the output '
     'grid returned in the requested units. Without a grid, a sorted positive '
     'grid is chosen (up to the Nyquist frequency for discrete models), the '
     'response matches that grid, and the grid reaches below and above all '
     'modes and has points within the bandwidth of each of them.',
     ['inputs', 'configurations'], 'all models (static, SISO, MIMO, both '
     'representations), grids and unit combinations',
     'State responses go through a hand written Hessenberg solver and unit '
     'handling depends on two independent options.',
     ['_frequency_domain.py'],
     [('frequency_response', '_frequency_domain.py:frequency_response'),
      ('Hessenberg solver', '_frequency_domain.py:_State_freq_resp'),
      ('automatic grid', '_frequency_domain.py:_get_freq_grid')],
     ['return value of frequency_response'])

prop('C15', 'Simulated outputs solve the model equations',
     'Simulating a model with an input and an initial state gives the '
     'solution of its difference equation, or, for continuous models, the '
     'exact solution of its differential equation for the input held '
     'constant between samples, at every requested time. Static gains act '
     'sample by sample; per-channel output holds the response to each input '
     'alone; malformed inputs and times are refused.',
     ['inputs'], 'all models, input signals, time grids and initial states',
     'Linearity, causality, time invariance and per-channel assembly need '
     'families of runs rather than one.',
     ['_time_domain.py'],
     [('simulate_linear_system', '_time_domain.py:simulate_linear_system'),
      ('input checks', '_time_domain.py:_check_u_and_t_for_simulation')],
     ['return value of simulate_linear_system'])

prop('C16', 'Step and impulse responses are those of every channel',
     'The step and impulse response of a model at each returned time is the '
     'response of each output to a unit step, or to a unit area pulse of one '
     'sample, applied to each input alone, whether the time grid is given or '
     'chosen automatically. The automatic grid is uniform, starts at zero, '
     'is made of sampling periods for discrete models, resolves the modes '
     'that matter and lasts until those of stable models have decayed.',
     ['inputs'], 'all models and time grids; automatic grids for models with '
     'poles on a wide range of time scales',
     'The automatic grid depends on pole location classes; only a few are '
     'tested and only the grid, not the response.',
     ['_time_domain.py'],
     [('step', '_time_domain.py:simulate_step_response'),
      ('impulse', '_time_domain.py:simulate_impulse_response'),
      ('automatic grid', '_time_domain.py:_compute_tfinal_and_dt')],
     ['return values of the two response functions'])

prop('C17', 'Lyapunov and Stein solutions satisfy their equations',
     'The returned matrix solves the continuous or discrete Lyapunov '
     'equation, plain or generalised, that was posed, is symmetric, and does '
     'so for every uniquely solvable problem with symmetric right hand side, '
     'whatever the eigenvalue structure and array type. The arguments are left '
     'alone, malformed ones are refused.',
     ['inputs'], 'all sizes, eigenvalue block structures, stable or not, '
     'integer or float data',
     'The block recursion treats 1x1 and 2x2 Schur blocks in every relative '
     'position separately; random tests have few sizes and no integers.',
     ['_solvers.py'],
     [('lyapunov_eq_solver', '_solvers.py:lyapunov_eq_solver'),
      ('block recursions', '_solvers.py:_solve_continuous_lyapunov')],
     ['return value of lyapunov_eq_solver'])

prop('C18', 'LQR gains are optimal',
     'lqr returns a gain, a symmetric solution and closed loop eigenvalues '
     'that satisfy the Riccati equation of the posed problem (continuous or '
     'discrete, state or output weighted, with or without cross weight), with '
     'the gain derived from that solution and the eigenvalues those of the '
     'stable closed loop. Static gains, weights of the wrong shape and unknown weighting options '
     'are refused.',
     ['inputs', 'configurations'], 'all stabilizable models with definite '
     'weights, with output weighting, cross terms and default input weight',
     'Weighting options interact and are tested with one model.',
     ['_static_ctrl_design.py'], [('lqr', '_static_ctrl_design.py:lqr')],
     ['return value of lqr'])

prop('C19', 'Ackermann gains place the poles where asked',
     'For a controllable single input model the returned gain K makes the '
     'eigenvalues of A - BK the requested locations with multiplicity, for '
     'real and conjugate pairs in any order. Multi input models, '
     'uncontrollable pairs and location lists of the wrong length or not '
     'closed under conjugation are refused.',
     ['inputs'], 'all controllable pairs of moderate order and location '
     'lists closed under conjugation',
     'Tests use two or three location sets.',
     ['_static_ctrl_design.py'],
     [('ackermann', '_static_ctrl_design.py:ackermann')],
     ['return value of ackermann'])

prop('C20', 'System norms are the norms of the transfer matrix',
     'The H2 norm equals the energy of the impulse response and the Hinf norm '
     'equals the peak over the whole stability boundary of the largest '
     'singular value, for continuous and discrete models and static gains in '
     'either representation. Unstable models have infinite norm and so has '
     'the H2 norm of a continuous model with direct feedthrough.',
     ['inputs'], 'all stable models with poles away from the boundary, of '
     'any shape, continuous and discrete; unstable models',
     'The peak search is iterative with a tolerance on eigenvalues and an '
     'initial guess; tests have a few norms from the literature.',
     ['_system_props.py'], [('system_norm', '_system_props.py:system_norm')],
     ['return value of system_norm'])

prop('C21', 'Minimal realization removes exactly the cancelling part',
     'The minimal realization of a model has the same transfer matrix, '
     'channel count and sampling period, and its order is the McMillan degree '
     'of the model: all uncontrollable and unobservable states, or common '
     'factors of each SISO entry, are removed and nothing else is.',
     ['inputs'], 'all models with known controllable and observable parts '
     'that are well separated from loss of minimality',
     'The order depends on rank decisions; tests have two or three examples.',
     ['_system_funcs.py'],
     [('minimal_realization', '_system_funcs.py:minimal_realization'),
      ('state version', '_system_funcs.py:_minimal_realization_state'),
      ('cancellation', '_system_funcs.py:_minimal_realization_simplify')],
     ['return value of minimal_realization'])

prop('C22', 'Canonical forms are similar to the original',
     'Staircase and Hessenberg forms are an orthogonal change of coordinates '
     'of the model, reproduced exactly by the returned transformation: '
     'transfer matrix, eigenvalues, feedthrough and sampling period stay. The '
     'staircase form is block Hessenberg and exposes the controllable (or '
     'observable) part, and the Hessenberg form has Hessenberg state matrix '
     'with the first input (or output) compressed to a single entry.',
     ['inputs', 'configurations'], 'all state models with the form and '
     'invert options',
     'Four option combinations times shapes; tests check one or two.',
     ['_system_funcs.py'],
     [('staircase', '_system_funcs.py:staircase'),
      ('hessenberg_realization', '_system_funcs.py:hessenberg_realization')],
     ['return values of staircase and hessenberg_realization'])

prop('C23', 'Controllability and observability analysis is right',
     'The controllability and observability matrices are the Kalman matrices '
     'of the model and the reported ranks, yes/no answers, controllability '
     'indices (up to their order) and the Kalman decomposition agree with the '
     'true controllable and observable subspaces. The decomposition is a change of coordinates '
     'of the same model.',
     ['inputs', 'configurations'], 'all models with controllable and '
     'observable subspaces known by construction',
     'The true subspaces of tested models are all trivial.',
     ['_kalman_ops.py', '_system_props.py'],
     [('controllability_matrix', '_kalman_ops.py:controllability_matrix'),
      ('observability_matrix', '_kalman_ops.py:observability_matrix'),
      ('kalman_decomposition', '_kalman_ops.py:kalman_decomposition'),
      ('controllability_indices',
       '_system_props.py:controllability_indices')],
     ['return values of these functions'])

prop('C24', 'Cancellation distance brackets the distance to rank loss',
     'The returned bounds are ordered and the upper bound is the size of a '
     'perturbation that makes the pair lose rank at the returned point, zero '
     'if it already does so there. No perturbation smaller than the lower '
     'bound makes the pair lose rank at any point.',
     ['inputs'], 'all matrix pairs of compatible size, including pairs that '
     'already cancel',
     'Bounds need an independent search to be refuted.',
     ['_system_funcs.py'],
     [('cancellation_distance', '_system_funcs.py:cancellation_distance')],
     ['return value of cancellation_distance'])

prop('C25', 'Polynomial arithmetic is exact arithmetic on coefficients',
     'Sum, product, division, greatest common divisor, least common multiple, '
     'root expansion and companion matrix of polynomials given as coefficient '
     'sequences agree with exact arithmetic: quotient times divisor plus '
     'remainder is the dividend, the divisor divides and the multiple is '
     'divided by every argument with no extra roots, and the multipliers '
     'take the monic arguments to the multiple.',
     ['inputs'], 'all coefficient lists and arrays of moderate degree, with '
     'leading zeros, constants, zeros and repeated factors',
     'Algebraic identities over all inputs; tests have fixed examples.',
     ['_polynomial_ops.py'],
     [('haroldlcm', '_polynomial_ops.py:haroldlcm'),
      ('haroldgcd', '_polynomial_ops.py:haroldgcd'),
      ('haroldpolydiv', '_polynomial_ops.py:haroldpolydiv'),
      ('haroldpolymul', '_polynomial_ops.py:haroldpolymul'),
      ('haroldpolyadd', '_polynomial_ops.py:haroldpolyadd')],
     ['return values of the polynomial functions'])

prop('C26', 'Matrix helpers deliver the decompositions they promise',
     'The singular value decomposition rebuilds its argument with orthogonal '
     'factors and the numerical rank, the kernel function returns an '
     'orthonormal basis of the null space of the requested side, complex '
     'numbers are paired with their conjugates without loss, and unit vectors '
     'and corner slices and stacked model matrices have the requested '
     'content.',
     ['inputs'], 'all real matrices of all shapes and ranks, all arrays '
     'closed under conjugation, all slice arguments',
     'Rank deficiency and shape combinations.',
     ['_aux_linalg.py', CL],
     [('haroldsvd', '_aux_linalg.py:haroldsvd'),
      ('haroldker', '_aux_linalg.py:haroldker'),
      ('pair_complex_numbers', '_aux_linalg.py:pair_complex_numbers'),
      ('matrix_slice', '_aux_linalg.py:matrix_slice'),
      ('e_i', '_aux_linalg.py:e_i'),
      ('concatenate_state_matrices', CL + ':concatenate_state_matrices')],
     ['return values of the helpers'])

prop('C27', 'Library calls never change their arguments',
     'No operator or library function changes the models or arrays it is '
     'given, and a model shares no storage with the arrays it was built '
     'from or with other models derived from it: changing those afterwards '
     'does not change the model.',
     ['inputs', 'histories'], 'all public operations on models and arrays '
     'followed by in-place changes of the arguments',
     'Aliasing is invisible unless something is changed in place afterwards.',
     [CL, '_solvers.py', '_discrete_funcs.py', '_time_domain.py'],
     [('constructors', CL + ':State.__init__'),
      ('operators', CL + ':State.__add__'),
      ('equation solvers', '_solvers.py:lyapunov_eq_solver')],
     ['bytes of arguments before and after each call'])

prop('C28', 'DC gain is the value at zero frequency',
     'The dcgain of a model is its transfer matrix at s=0, or z=1 for '
     'discrete models, entry by entry, with an infinite value where an entry '
     'has an uncancelled pole at that point. It is the value the step '
     'response of a stable model settles at.',
     ['inputs'], 'all models with no pole at the evaluation point, and '
     'entries with integrators',
     'Depends on entry wise poles; MIMO entries differ.',
     [CL, '_system_funcs.py'],
     [('dcgain attribute', CL + ':Transfer.dcgain'),
      ('dcgain function', '_system_funcs.py:dcgain')],
     ['dcgain attribute and dcgain()'])

prop('C29', 'Random models have the requested character',
     'Randomly drawn models have the requested number of states, inputs and '
     'outputs, the requested sampling period, and all poles in the stability '
     'region when stability is asked for, for every size and every '
     'distribution of pole kinds. Poles of kinds with zero probability do '
     'not occur, except for one real pole where no other kind fits an odd '
     'number of states; impossible requests are refused.',
     ['inputs', 'configurations'], 'all sizes, shapes, sampling periods and '
     'pole kind distributions, over many draws',
     'A property of every draw of a random generator.',
     [CL], [('random_state_model', CL + ':random_state_model')],
     ['models returned by random_state_model'])

prop('C30', 'Plots show the computed responses',
     'The curves drawn by the Bode, Nyquist, step and impulse response plots '
     'are the responses of the given models: one curve per channel and model '
     'with the right magnitudes, phases, units and time or frequency axis, '
     'also when several models with different dynamics share one figure.',
     ['inputs', 'configurations'], 'all lists of models of equal shape and '
     'unit options',
     'Plots are not tested at all beyond being drawn.',
     ['_frequency_domain_plots.py', '_time_domain_plots.py'],
     [('bode_plot', '_frequency_domain_plots.py:bode_plot'),
      ('nyquist_plot', '_frequency_domain_plots.py:nyquist_plot'),
      ('step_response_plot', '_time_domain_plots.py:step_response_plot'),
      ('impulse_response_plot',
       '_time_domain_plots.py:impulse_response_plot')],
     ['line data of the returned figures'])

prop('C31', 'Printed models tell what they are',
     'The text of a model names its kind, its time domain with sampling time '
     'and frequency, the numbers of its states, inputs and outputs, or the '
     'size of its static gain, and lists all its poles and zeros. It follows '
     'assignments to the model.',
     ['inputs', 'histories'], 'all models of both kinds, time domains, sizes '
     'and orders, also after assignments',
     'The tests never look at the printed text.',
     ['_classes.py'],
     [('Transfer.__repr__', '_classes.py:Transfer.__repr__'),
      ('State.__repr__', '_classes.py:State.__repr__')],
     ['repr() and str() of models'])

prop('C32', 'Static models calculate like matrices',
     'A static model of either kind behaves like the matrix it stands for: '
     'to_array() returns that matrix, sums, products, inverses, slices, '
     'feedback loops, conversions, discretizations and reductions of static '
     'models are the static models of the results of matrix arithmetic, and '
     'their responses and norms are those of the matrix. Models with '
     'dynamics refuse to_array().',
     ['inputs', 'histories'], 'all matrices of any size and rank, given in '
     'any form, and pairs of them of different kinds',
     'Tests hold single gains only, rarely nonsquare, rank deficient or of '
     'mixed kinds.',
     ['_classes.py', '_system_funcs.py', '_discrete_funcs.py',
      '_time_domain.py', '_frequency_domain.py', '_system_props.py'],
     [('to_array', '_classes.py:Transfer.to_array, State.to_array'),
      ('static branches of the operators', '_classes.py:Transfer.__add__, '
       'State.__matmul__ and the others'),
      ('static branches of the functions', '_discrete_funcs.py:discretize, '
       '_system_funcs.py:minimal_realization and others')],
     ['matrices, numerators and flags of derived models', 'to_array()'])

prop('C33', 'Calls are repeatable and leave the process alone',
     'Calling a function or operator again with equal arguments gives the '
     'same result, whatever was called in between and whatever the state of '
     'the random generator is, for everything that is not random by '
     'purpose. No call changes the error handling, print options, warning '
     'filters, plot parameters, open figures, working directory or '
     'environment of the process, reseeds the random generator, or prints '
     'unless it is asked to.',
     ['inputs', 'histories'], 'all sequences of calls of the public '
     'functions',
     'Tests call everything once, in a fixed order and never look at the '
     'process.',
     ['_classes.py', '_system_funcs.py', '_time_domain.py',
      '_frequency_domain.py', '_frequency_domain_plots.py',
      '_time_domain_plots.py', '_polynomial_ops.py', '_aux_linalg.py'],
     [('all public functions and operators', '__init__.py'),
      ('starting vector', '_system_funcs.py:cancellation_distance'),
      ('error handling', '_classes.py:Transfer.dcgain')],
     ['results of repeated calls', 'state of the process around each call'])


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        pid = p['id']
        if not os.path.exists(os.path.join(VERIF, 'hmon', 'props',
                                           pid.lower() + '.py')):
            continue
        checks.append({
            'property': pid,
            'quick_cmd': f'/opt/venv/bin/python /verif/check.py {pid} '
                         '--tier quick',
            'thorough_cmd': f'/opt/venv/bin/python /verif/check.py {pid} '
                            '--tier thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': 'runtime monitoring: seeded hostile workloads run '
                         'against the library, a reference-model oracle at '
                         'the API boundary judges every observed call',
            'level': 'exploration',
            'level_note': 'held on the executions observed (counts in the '
                          'evidence file); says nothing about inputs the '
                          'workloads do not produce'})
    man = {'version': 1,
           'setup_cmd': 'bash /opt/vp/build.sh && /opt/venv/bin/python -c '
                        '"import harold, numpy, scipy, matplotlib"',
           'checks': checks, 'not_applicable': [],
           'notes': 'No hooks are needed: every property is observed at the '
                    'public API. check.py imports harold from /repo at run '
                    'time, so the current working tree is what is judged.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
