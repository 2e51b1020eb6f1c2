#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))


AT = 'qtune/autotuner.py'
PT = 'qtune/parameter_tuner.py'
SO = 'qtune/solver.py'
GR = 'qtune/gradient.py'
KG = 'qtune/kalman_gradient.py'
ST = 'qtune/storage.py'
HI = 'qtune/history.py'
EV = 'qtune/evaluator.py'
EX = 'qtune/experiment.py'
GU = 'qtune/gui.py'
UT = 'qtune/util.py'
M2 = 'qtune/mat2py.py'
SM = 'qtune/sm.py'
QQ = 'qtune/sm_tune_qqd.py'

prop('A01', 'Tuning climbs the hierarchy bottom-up, exactly one action per iteration',
     'Every successful iteration does exactly one thing: it measures and judges the group of parameters at the current '
     'position, or it asks that same group for its next voltages (only directly after that group failed its judgement), '
     'or it applies the pending voltages. A group that passes moves the tuning one position up, a group that fails makes '
     'the next iteration compute new voltages with this group, and applying voltages sends the tuning back to the lowest '
     'group, so that a group is only judged when all lower groups have passed at the present voltages.',
     ['histories', 'configurations'],
     'For every hierarchy of groups, every outcome of every judgement and every interleaving with restarts and target '
     'changes.',
     'There is no test of the tuning loop at all; the order of the steps depends on the whole history of judgements.',
     [AT, PT],
     [('dispatch of the iteration', AT + ' Autotuner.iterate'), ('position counter', AT + ' _current_tuner_index')],
     [('position', 'number of groups that passed at the present voltages', AT + ' current_tuner_index'),
      ('status', 'the group at the position was judged and failed', AT + ' current_tuner_status'),
      ('pending', 'voltages to be applied next', AT + ' voltages_to_set')],
     ['current_tuner_index, current_tuner_status, voltages_to_set after every call; calls received by the groups and '
      'the experiment'])

prop('A02', 'Tuning is only complete when every group passed at the present voltages',
     'The tuning is reported complete only if every group of the hierarchy was measured and passed after the last change '
     'of a voltage, of a target and after the last restart; it is reported complete as soon as the topmost group passes, '
     'and never earlier.',
     ['histories', 'configurations'],
     'For every hierarchy, every history of judgements, applied voltages, restarts and target changes.',
     'No test runs a hierarchy to completion; the guarantee speaks about the complete history since the last change.',
     [AT, PT],
     [('completion test', AT + ' Autotuner.is_tuning_complete'), ('reset of the position', AT + ' iterate/restart/change_targets')],
     [('position', 'number of passed groups', AT + ' current_tuner_index')],
     ['is_tuning_complete() after every call, against the recorded judgements'])

prop('A03', 'Gate voltages change only in the apply step and become exactly the suggestion',
     'The tuner changes gate voltages of the experiment only in the apply step, exactly once per computed suggestion, and '
     'requests exactly the voltages suggested by the group in the preceding compute step, for exactly the gates named by '
     'it. Every judgement is made with the voltages the experiment reports at that moment, and no suggestion is applied '
     'twice, altered or skipped unless a restart or a target change discards it.',
     ['histories', 'inputs'],
     'For every suggestion (any subset of gates, any values), every experiment that sets only approximately what is '
     'requested, and every history.',
     'Tests never apply a voltage to an experiment.',
     [AT],
     [('apply step', AT + ' Autotuner.iterate'), ('pending voltages', AT + ' _voltages_to_set')],
     [('pending', 'voltages to be applied next', AT + ' voltages_to_set')],
     ['set_gate_voltages / read_gate_voltages calls seen by the experiment'])

prop('A04', 'A refused or failing iteration changes nothing and can be retried',
     'An iteration that is refused (tuning complete, gate names incoherent, a pending voltage is not a number) raises, '
     'and one in which a measurement, a computation or the setting of the voltages raises passes the error on; in both cases '
     'the position, the pending voltages, the history of passed and measured voltages and the voltages of the experiment '
     'stay as they were. Repeating the iteration after the cause is gone does what the failed iteration would have done.',
     ['fault_sequences', 'histories', 'inputs'],
     'For a failure injected into any call to a group, an evaluator or the experiment, in any state of the tuning.',
     'Tests inject no failures into the tuning loop.',
     [AT, PT],
     [('guards at the begin of the iteration', AT + ' iterate, ready_to_tune'), ('state is changed after the call returned', AT + ' iterate')],
     [('position/status/pending', 'state of the loop', AT)],
     ['exception of iterate() and the complete observable state before and after'])

prop('A05', 'Restart and target changes begin again at the bottom with fresh information',
     'After a restart or a change of targets the tuning stands at the lowest group, without pending voltages and without a '
     'judgement from before, so that every group is measured again before it counts as tuned. A restart hands the voltages '
     'presently set to every group, its solver and its gradient estimators, each updating exactly the gates it knows, and '
     'drops queued partial steps; a target change modifies exactly the named entries of the named groups and nothing else.',
     ['histories', 'inputs', 'configurations'],
     'For a restart or target change in every state of the tuning, after arbitrary manual changes of the voltages, for '
     'any subset of gates known to the members and any subset of target entries.',
     'Tests call neither restart nor change_targets on an autotuner.',
     [AT, PT, SO, GR],
     [('restart chain', AT + ' restart -> ' + PT + ' restart -> ' + SO + ' restart -> ' + GR + ' restart'),
      ('target setter', SO + ' Solver.target'), ('reset', AT + ' change_targets')],
     [('last voltages / current positions', 'voltages known to the members', PT + ', ' + SO + ', ' + GR)],
     ['positions of all members, targets and loop state after the call'])

prop('A06', 'A group is told exactly which parameters are already tuned below it',
     'When a group is asked for its next voltages it is told exactly the set of parameters that the lower groups of the '
     'hierarchy are tuning to a target; parameters of the group itself, of higher groups, and parameters without a target '
     'are not contained. No parameter of a lower group that has a target is missing.',
     ['configurations', 'histories'],
     'For every hierarchy, every distribution of parameters with and without targets and every position.',
     'No test looks at this information.',
     [AT],
     [('collection of the parameters', AT + ' Autotuner.tuned_parameters')],
     [],
     ['tuned_parameters argument received by the groups'])

prop('A07', 'A tuning that reports completion has every parameter on target',
     'Whenever nothing but the gate voltages determines what the experiment measures and the tuning reports that it is '
     'complete, measuring every group again at the present voltages finds all its parameters on target: a parameter with '
     'a desired value and a tolerance deviates from it by less than the tolerance, the signal of a sensing dot exceeds '
     'its minimum. In such an experiment a tuning whose groups have gates of their own and whose parameters depend '
     'linearly on them does complete within a bounded number of iterations, also when single iterations fail and are '
     'repeated, and again after restarts and changes of the desired values.',
     ['inputs', 'configurations', 'histories'],
     'For every hierarchy of groups (finite differences, Kalman filters, simplex, sensing dot; shared gates and shared '
     'gradient estimators), every initial position, desired value and unit of the parameters.',
     'No test runs a tuning from beginning to end and measures the outcome again.',
     [AT, PT, SO, GR, KG, EV, 'qtune/basic_dqd.py'],
     [('tuning loop', AT + ' Autotuner.iterate'), ('judgement', PT + ' is_tuned'),
      ('next voltages', SO + ' suggest_next_position')],
     [('completion', 'position at the end of the hierarchy', AT + ' is_tuning_complete')],
     ['is_tuning_complete, values measured anew by the evaluators of every group, targets'])

prop('T01', 'A group passes exactly when all its parameters are within tolerance',
     'A group with per-parameter targets passes a judgement if and only if it has been measured in this judgement, no '
     'relevant parameter came out undefined and every parameter with a desired value and a tolerance deviates from it by '
     'less than the tolerance. Each measurement is recorded: the last values and variances are those just measured, the '
     'voltages of a successful measurement are remembered as measurable and, if it passed, as tuned, and the solver gets '
     'the measured values of this measurement exactly once together with its voltages.',
     ['inputs', 'histories'],
     'For all measured values (including exactly on the boundary, undefined, infinite), tolerances and targets (including '
     'missing ones).',
     'The tests check two sampled values with a mocked solver.',
     [PT],
     [('judgement', PT + ' SubsetTuner.is_tuned'), ('measurement', PT + ' ParameterTuner.evaluate')],
     [('tuned voltages, measurable voltages, last values', 'record of the measurements', PT)],
     ['return value, tuned_voltages, last_parameters_and_variances, calls received by the solver'])

prop('T02', 'Voltage steps are limited in size and number between two measurements',
     'The step from the last voltages to the suggested ones points exactly towards the position suggested by the solver '
     'and leaves all other gates unchanged; it reaches the suggestion if that is not farther away than the maximal step '
     'size and has exactly the maximal step size otherwise (steps back after a failed measurement excepted). After a '
     'measurement at most the maximal number of steps, and never a longer way than suggested, is made before the '
     'parameters are measured again, and the tuning always comes back to a measurement.',
     ['inputs', 'histories', 'configurations'],
     'For all distances, maximal step sizes and numbers, all subsets of gates and all histories of partial steps, with '
     'and without position feedback of the experiment.',
     'The test covers a single slicing with fixed numbers.',
     [PT],
     [('slicing', PT + ' SubsetTuner.get_next_voltages'), ('queue of steps', PT + ' _number_queued_steps')],
     [('queued steps', 'steps left before the next measurement', PT)],
     ['suggested voltages and whether a judgement measures'])

prop('T03', 'After a failed measurement the tuner goes half way back to known-good voltages',
     'If a measurement of a group yields an undefined relevant parameter, the group does not pass, the solver and the '
     'records of measurable and tuned voltages stay untouched, and the next suggestion is the midpoint between the present '
     'voltages and the most recent voltages known to be good; repeated failures converge to these. The first measurement '
     'that succeeds again ends the recovery and normal suggestions resume.',
     ['inputs', 'fault_sequences', 'histories'],
     'For every pattern of failing parameters and every sequence of failures and successes after a first success.',
     'The only test of the recovery is not functional (mocked target).',
     [PT],
     [('failure flag', PT + ' is_tuned/get_next_voltages')],
     [('failure flag', 'the last measurement failed', PT + ' last_evaluation_failed')],
     ['suggestions, flag, solver calls'])

prop('T04', 'The sensing dot tuner measures expensively only below the cost threshold',
     'The sensing dot group always performs its cheap measurement first and passes if and only if every cheap value is '
     'defined and above its minimum; in that case nothing else is measured and its solver is not touched. Otherwise, '
     'if no cheap value is undefined, the expensive measurement is performed exactly if one is at or below the cost threshold, and the values of the most '
     'detailed measurement made, and only those, are handed to the solver and recorded for their parameters.',
     ['inputs', 'histories'],
     'For all measured values including the boundaries and undefined ones, all thresholds and all histories.',
     'No test covers this tuner.',
     [PT],
     [('judgement', PT + ' SensingDotTuner.is_tuned')],
     [('cheap only flag', 'the last judgement needed no expensive measurement', PT + ' cheap_evaluation_only')],
     ['evaluator calls, solver calls, records, return value'])

prop('T05', 'Measured values are rescaled exactly once',
     'Each measured value is divided by the rescaling factor of its parameter exactly once and its variance by the squared '
     'factor, before it is compared with the target, recorded or handed to the solver; parameters without a factor keep '
     'their value. A solver that converts values back to voltages restores the measured numbers exactly and leaves the '
     'recorded values of its caller untouched.',
     ['inputs', 'configurations'],
     'For all factors, values, variances and both kinds of groups.',
     'Tests use the default factor or mocks.',
     [PT, SO],
     [('rescaling', SO + ' Solver.rescale_values / descale_values')],
     [],
     ['recorded values and values received by the solver against the values returned by the evaluators'])

prop('S01', 'The Newton solver steps to the nearest solution of the linearised targets',
     'If every gradient is known well enough, the suggested position differs from the present one by the smallest step '
     'that solves (or, if impossible, best approximates) the linearised equations: parameters with a desired value change '
     'by their distance to it and parameters without a desired value stay unchanged. As long as a gradient estimator of a '
     'parameter with a desired value asks for a measurement, the position asked for by the first such estimator is '
     'suggested instead, restricted to the gates of the solver. The state it shows is the jacobian it uses.',
     ['inputs', 'configurations'],
     'For all gradients (full rank, rank deficient, more gates than parameters), values, targets and request patterns.',
     'One test with two sampled gradients; undefined targets and the minimal norm are not looked at.',
     [SO],
     [('least squares step', SO + ' NewtonSolver.suggest_next_position')],
     [('current position and values', 'last update', SO)],
     ['suggest_next_position() against gradients and values'])

prop('S02', 'Each gradient estimator is updated with its own parameter, value and variance',
     'With every measurement each gradient estimator belonging to a parameter with a desired value receives the voltages, '
     'the value and the variance of exactly this parameter, once; estimators of other parameters are left alone. The '
     'solver remembers position and values for its own gates and parameters, irrespective of the order and of additional '
     'entries of what it is given.',
     ['inputs', 'configurations', 'histories'],
     'For all orders and supersets of parameters and gates, all targets and all histories of updates.',
     'The test passes equal variances and one fixed order.',
     [SO],
     [('update', SO + ' NewtonSolver.update_after_step')],
     [],
     ['calls received by the estimators'])

prop('S03', 'The Nelder-Mead solver follows the simplex algorithm and never loses its best',
     'The solver first builds a simplex of one more point than gates with linearly independent directions and then follows '
     'the Nelder-Mead scheme: reflection of the worst point at the centroid of the others, expansion, outer or inner '
     'contraction and shrinking towards the best point, each decided by comparing the new cost with the best, second worst and worst '
     'cost. The simplex always has the right number of points ordered by cost, each point keeps its own values, the best '
     'cost never increases, and after every completed trial a new iteration begins.',
     ['inputs', 'histories'],
     'For all sequences of measured values, including ties.',
     'The tests check the internal states of single steps with prepared simplices, in part with wrong expectations.',
     [SO],
     [('state machine', SO + ' NelderMeadSolver.update_after_step'), ('trial points', SO + ' NelderMeadSolver.suggest_next_position')],
     [('simplex, state', 'points with values, phase of the iteration', SO)],
     ['simplex, suggestions and phase after every update'])

prop('S04', 'The forwarding solver moves exactly the mapped gates to the measured positions',
     'The forwarding solver suggests the last measured position with every gate that is mapped to a measured value '
     'replaced by this value in original units; unmapped values and gates have no influence and a gate whose value was '
     'not measured stays where it is. It knows a position for exactly its gates at any time and has no state of its own.',
     ['inputs', 'configurations', 'histories'],
     'For all mappings, partial measurements, extra entries and histories.',
     'One test with one mapping.',
     [SO],
     [('mapping', SO + ' ForwardingSolver.update_after_step')],
     [('next position', 'suggestion', SO)],
     ['suggest_next_position() after updates'])

prop('G01', 'Finite differences use a fixed number of points and are exact if affine',
     'The finite difference estimator asks for measurements at the configured distance from its position along mutually '
     'independent directions until it has seen n+1 points (one sided) or n pairs placed symmetrically (symmetric) for n '
     'gates, has no estimate before and asks for nothing afterwards. The gradient it then reports is exact for every '
     'affine function, and its covariance is the propagated variance of the measurements.',
     ['inputs', 'histories', 'configurations'],
     'For all positions, step sizes, dimensions, affine functions and variances, and measurements placed elsewhere than '
     'requested.',
     'The tests sample one function and three gates with seeds; the covariance is not tested.',
     [GR, UT],
     [('requests', GR + ' FiniteDifferencesGradientEstimator.require_measurement'), ('gradient', UT + ' calculate_gradient_non_orthogonal')],
     [('stored measurements', 'points measured so far', GR)],
     ['require_measurement(), estimate(), covariance()'])

prop('G02', 'The Kalman estimator asks for a measurement exactly where it is too uncertain',
     'The Kalman gradient estimator asks for a measurement if and only if the uncertainty of the gradient along some '
     'principal direction exceeds the allowed one; the point asked for lies at the configured distance from the present '
     'position along the most uncertain direction. If parameters below are already tuned, only directions that leave '
     'those unchanged to first order are considered and used.',
     ['inputs', 'configurations', 'histories'],
     'For all covariances, thresholds, subsets of gates and gradients of tuned parameters.',
     'One test with a diagonal covariance.',
     [GR],
     [('request', GR + ' KalmanGradientEstimator.require_measurement')],
     [('covariance', 'uncertainty of the gradient', KG)],
     ['require_measurement() against covariance()'])

prop('G03', 'The Kalman filter update is the exact Bayesian update of the gradient',
     'A measurement at a new position updates gradient and covariance by the Kalman formulas for the difference to the '
     'previous position and value, using the variance of this measurement and the configured fading; a measurement that '
     'did not move (or the first one, or the first after a restart) changes neither. The covariance stays symmetric, is '
     'not enlarged by a measurement without fading, and directions not moved along are not affected if uncorrelated.',
     ['inputs', 'histories'],
     'For all moves, values, variances, fading factors, dimensions and histories including restarts.',
     'One test follows a sampled path with loose tolerances.',
     [KG, GR],
     [('filter', KG + ' KalmanGradient.update'), ('differences', GR + ' KalmanGradientEstimator.update')],
     [('gradient, covariance, base position and value', 'filter state', KG + ', ' + GR)],
     ['estimate() and covariance() before and after every update'])

prop('G04', 'The self-initialising estimator hands over from finite differences once',
     'The self-initialising estimator behaves like finite differences until these are complete; at that moment it '
     'continues, once and for all, as a Kalman estimator that starts with the estimated gradient and covariance at the last '
     'measured position and value. Every later measurement updates the Kalman estimate and the finite differences never '
     'change again.',
     ['inputs', 'histories', 'configurations'],
     'For all functions, positions, both difference schemes, save and reload in every phase.',
     'There is no test.',
     [GR],
     [('hand over', GR + ' SelfInitializingKalmanEstimator.update')],
     [('active estimator', 'finite differences or Kalman filter', GR)],
     ['estimate(), covariance(), require_measurement() after every update'])

prop('H01', 'Saved objects are reloaded with equal content, types and shared references',
     'Whatever can be saved is reloaded equal: scalars, strings, nothing, lists, tuples, dictionaries, arrays, labelled '
     'series and tables and all library objects, nested arbitrarily, keep their type, content, order and labels. Objects '
     'that were one and the same when saved are one and the same after reloading, objects that were different stay '
     'different, and reserved objects are replaced by those supplied when loading. If the constructor of a saved object '
     'refuses its content, the reload fails with exactly this error, and reloading writes no files. Reading several files '
     'yields everything in them once, ordered by name.',
     ['inputs'],
     'For all object graphs built from the supported types with any sharing.',
     'The tests reload a handful of fixed objects and fail for strings.',
     [ST],
     [('serialisation', ST + ' _to_hdf5 / _from_hdf5'), ('identity map', ST + ' serialized / deserialized')],
     [],
     ['to_hdf5 followed by from_hdf5'])

prop('H02', 'A tuning reloaded from any snapshot continues exactly like the original',
     'An autotuner reloaded from the snapshot of any iteration is in the state of the original after that iteration, and '
     'behaves from then on identically: given the same measurements it makes the same judgements, computes the same voltages, '
     'and completes at the same time. This holds for every kind of group, solver and gradient estimator of the library.',
     ['histories', 'crash_points', 'configurations'],
     'For a reload after every iteration of every history, for all combinations of library components.',
     'Tests reload no autotuner.',
     [AT, PT, SO, GR, KG, EV, ST],
     [('constructor arguments as state', 'to_hdf5 of every class'), ('reload', AT + ' load_auto_tuner')],
     [],
     ['lock step runs of the original and the reloaded autotuner'])

prop('H03', 'Each iteration leaves one complete snapshot of the state right after it',
     'Each successful iteration writes exactly one new file, named so that alphabetical order is chronological, that '
     'contains the state right after this iteration no matter how late the writer is scheduled and what happens to the tuning '
     'meanwhile; a refused or failed iteration writes none. Writing never alters or removes an earlier snapshot, and a '
     'failing write or a crash while writing costs at most the snapshots not yet completely written.',
     ['schedules', 'crash_points', 'fault_sequences', 'histories'],
     'For all schedules of the background writer, failures of single writes and crashes at any write.',
     'No test saves an autotuner; schedules are not controlled by tests.',
     [AT, ST],
     [('copy at submission', ST + ' AsynchronousHDF5Writer.write'), ('file per iteration', AT + ' save_current_status')],
     [('write queue', 'snapshots submitted and not yet written', ST)],
     ['files in the storage directory and their content at any moment'])

prop('H04', 'The background writer writes everything it accepted, in order, and terminates',
     'Everything the background writer accepted before it is joined is on disk when the join returns, written in the order of '
     'submission with the content at submission; the join always returns, also after failing writes, which affect no other '
     'write. A writer that was joined refuses further writes with an error until it is restarted, and can be joined '
     'and restarted repeatedly.',
     ['schedules', 'fault_sequences', 'histories'],
     'For all interleavings of submitting, writing, failing, joining and restarting.',
     'The test writes once without failures under one schedule.',
     [ST],
     [('worker', ST + ' _writer_target'), ('life cycle', ST + ' AsynchronousHDF5Writer')],
     [('queue, worker', 'pending tasks', ST)],
     ['files after join, outcome of write/join/restart'])

prop('Y01', 'The history has one row per voltage configuration with the values measured there',
     'The history contains one row for each maximal run of consecutive iterations with the same voltages, in '
     'chronological order, holding these voltages, and for each group judged at these voltages its parameters, variances, '
     'gradients and covariances as of the latest judgement there. Values of groups not yet reached at these voltages are '
     'absent from rows after the first.',
     ['histories', 'configurations'],
     'For all histories of judgements, steps, restarts and failed measurements, all kinds of groups.',
     'There is no test of the history.',
     [HI],
     [('append', HI + ' History.append_autotuner')],
     [('data frame', 'rows', HI)],
     ['accessors of the history after every appended iteration'])

prop('Y02', 'A history rebuilt from the saved files equals the live one',
     'The history rebuilt from a directory of snapshots equals the history to which the same iterations were appended '
     'live, and the history of a single file is that of its state. Each row names the snapshot of the last iteration of '
     'that row, and reloading it yields a tuner in exactly that state.',
     ['histories', 'configurations'],
     'For all histories saved to a directory.',
     'There is no test of the history.',
     [HI, AT, ST],
     [('loading', HI + ' History.load_directory/load_file'), ('paths', HI + ' get_reload_path')],
     [],
     ['both histories through all accessors'])

prop('Y03', 'History accessors return exactly the entries of the requested quantity',
     'The gradient, the gradient variances and the gradient covariances returned for a parameter are exactly the entries recorded '
     'for this parameter, labelled with their gates, whatever other parameters and gates are called; standard deviations '
     'are the square roots of the recorded variances. Gate and parameter values are those recorded under that name.',
     ['inputs', 'configurations'],
     'For all names of parameters and gates (prefixes of each other, special characters) and all recorded values.',
     'There is no test of the history.',
     [HI],
     [('column names', HI + ' get_gradients / get_gradient_covariances / get_gradient_variances')],
     [],
     ['accessors against the recorded autotuners'])

prop('Y04', 'Plots of the history show exactly the recorded rows',
     'The plots of a history have one curve per requested gate and parameter, and one per gate of each requested gradient, with '
     'one point per row of the history (none where the row has no value), labelled with the gate. Error bars appear '
     'if they are requested and have the length of the standard deviation recorded in this row. Plots of evaluators show, for each '
     'requested row and each requested evaluator with data in it, the raw data, the fit, and the marks '
     '(positions found) of this row. Plotting works for any names, for a single quantity as well as for several, and while '
     'some quantities are not yet known, and changes nothing.',
     ['histories', 'inputs', 'configurations'],
     'For all histories, selections of quantities and rows.',
     'There is no test of the plots; curves attributed to the wrong quantity, row or error show only when compared with the history.',
     [HI, UT],
     [('curves', HI + ' History.plot_tuning, plot_voltages, plot_parameters, plot_gradients'),
      ('raw data', HI + ' History.plot_evaluator_data, plot_single_evaluator_data; ' + UT + ' plot_raw_data_*')],
     [],
     ['lines, error bars, images and marks in the returned axes'])

prop('E01', 'Measuring a lead transition leaves the gate voltages as it found them',
     'After the lead transition is measured the gate voltages are what they were before, whether the measurement '
     'succeeded or failed at any point. During the measurements exactly the configured shifts are applied on top of the '
     'voltages found.',
     ['fault_sequences', 'inputs', 'configurations'],
     'For a failure in any call to the experiment, all shifts and voltages.',
     'There is no test of the evaluators.',
     [EV],
     [('restore', EV + ' LeadTransition.evaluate')],
     [],
     ['calls and voltages seen by the experiment'])

prop('E02', 'Evaluators deliver a value and a variance for exactly their declared parameters',
     'Each evaluation performs each configured measurement once and returns values and variances labelled with exactly the '
     'declared parameters in all cases. Evaluators that fit a curve return undefined values for all of them if the fit '
     'fails instead of raising or returning the result of an earlier fit, and recover the parameters of noise-free data; '
     'evaluators with limits return undefined values for results outside of them. An error of a measurement is passed on. '
     'Raw data and fit results stored by the evaluator are those of the last evaluation.',
     ['inputs', 'fault_sequences', 'histories'],
     'For all data the measurement may return, succeeding and failing fits in any order.',
     'There is no test of the evaluators.',
     [EV, QQ],
     [('fit failure', EV + ' InterDotTCByLineScan.evaluate, NewLoadTime.evaluate'),
      ('limits', QQ + ' QQDLine, QQDLead, QQDResp')],
     [],
     ['return values of evaluate() and saved data'])

prop('E03', 'The averaging evaluator returns mean and spread of independent repetitions',
     'The averaging evaluator repeats the wrapped evaluation exactly the configured number of times and returns, for '
     'each declared parameter, the mean of the defined values and the variance of this mean (the variance of the defined '
     'values divided by their number), undefined if no repetition gave a value. The raw data are those of the repetitions, '
     'in order. The result does not depend on earlier evaluations, and an error of a repetition is passed on.',
     ['inputs', 'histories', 'configurations'],
     'For all values, numbers of repetitions and parameters, any of the values undefined.',
     'There is no test of the evaluators.',
     [EV],
     [('averaging', EV + ' AveragingEvaluator.evaluate')],
     [],
     ['return value against the values of the wrapped evaluator'])

prop('E04', 'The positions and signals evaluators find are those of the feature in their data',
     'The position of a lead transition is that of the step in the scan of the gate it is named after, in the voltages of '
     'this scan. The sensing dot evaluators return the voltage of the steepest point of the configured flank, the signal '
     '(the slope) there and at the present voltage. This holds for offsets, slopes, directions, averages and scan ranges of '
     'any kind, and for the data of this measurement, not of an earlier one.',
     ['inputs', 'configurations', 'histories'],
     'For all positions, amplitudes, signs and widths of the feature that the scan resolves.',
     'There is no test of the evaluators; positions and signs differ per scan.',
     [EV, 'qtune/util.py'],
     [('lead', EV + ' LeadTransition.process_raw_data'), ('sensor', EV + ' SensingDot1D.evaluate, SensingDot2D.evaluate')],
     [],
     ['return value of evaluate() against the feature put into the data'])

prop('E05', 'The simulated experiment answers every measurement at its present voltages',
     'Setting voltages of the simulated experiment changes exactly the named gates, of this experiment only: neither the '
     'voltages it was built from nor another experiment. It reports what is set and cannot be changed through what it '
     'returned. It is only built if every measurement has a simulator; each measurement is answered by the one simulator '
     'assigned to it, asked once for the present voltages, whose data and errors are passed on, while measurements and '
     'voltages stay as they are. The simulators of the library contain the feature they stand for at the place, width, or time '
     'the voltages say, and the evaluators find it there.',
     ['histories', 'inputs', 'configurations'],
     'For all histories of settings and measurements of several experiments built from the same voltages.',
     'There is no test of the simulation; a feature at the wrong place or voltages shared between experiments show only in histories.',
     ['qtune/basic_dqd.py', EX],
     [('experiment', 'qtune/basic_dqd.py TestExperiment'), ('simulators', 'qtune/basic_dqd.py *_simulation, Simulator')],
     [('gate voltages', 'present voltages of the experiment', 'qtune/basic_dqd.py')],
     ['read_gate_voltages, measure, and what the simulators are asked'])

prop('U01', 'The graphical interface runs, pauses and steps the tuning as requested',
     'Start runs iterations until the tuning is complete, an iteration fails, or pause or close is requested; a step '
     'requested while nothing runs performs exactly one iteration. After a pause at most the iteration already begun is '
     'finished and after closing none runs; two iterations never run at the same time, and neither completion nor an exception '
     'nor the end of the worker prevents later steps or starts. The start and pause buttons are enabled accordingly.',
     ['schedules', 'fault_sequences', 'histories'],
     'For all interleavings of the user actions with the worker and all iteration outcomes.',
     'There is no test of the interface.',
     [GU],
     [('worker', GU + ' GUI._work'), ('controls', GU + ' GUI.start/step/pause/close/restart_thread')],
     [('flags', 'continue / step requests', GU)],
     ['iterations seen by the autotuner, liveness of the worker'])

prop('U02', 'Every iteration run by the interface is recorded in the history exactly once',
     'Each successful iteration run through the graphical interface is appended to the history exactly once, after it '
     'finished and before the next begins; failed iterations are not appended.',
     ['schedules', 'fault_sequences', 'histories'],
     'For all interleavings of the user actions with the worker and all iteration outcomes.',
     'There is no test of the interface.',
     [GU, HI],
     [('append', GU + ' GUI._work')],
     [],
     ['calls to autotuner and history'])

prop('U03', 'Reloading an earlier iteration restores its voltages or its state',
     'The reload window reloads the tune run whose number it shows, limited to those that exist. Reloading voltages sets '
     'exactly the gate voltages recorded for this run and restarts the tuning in use from them; reloading the state '
     'replaces the auto tuner of the interface by the one that was stored, restarted, with the same experiment. This '
     'holds for several windows at once.',
     ['histories', 'inputs'],
     'For all sequences of iterations, manual changes and reloads from any number of windows.',
     'There is no test of the interface.',
     [GU, HI],
     [('reload', GU + ' ReloadWidget.reload_voltages/reload_autotuner, GUI.load_auto_tuner_from_reload_widget')],
     [],
     ['voltages of the experiment, state of the auto tuner used by the interface'])

prop('U04', 'Open windows of the interface show exactly what is recorded',
     'After every iteration run through the graphical interface each open parameter or gradient window shows one panel '
     'per recorded parameter, with the values, errors and gradients of every row of the history and of nothing else. '
     'Windows may be opened and closed at any time without an effect on the others.',
     ['histories', 'schedules', 'fault_sequences'],
     'For all hierarchies, all sequences of iterations (failed ones included), restarts, and windows opened and closed in '
     'between, also before anything is recorded.',
     'There is no test of the interface.',
     [GU, HI],
     [('redraw', GU + ' ParameterWidget.refresh, GradientWidget.refresh, GUI._close_child'),
      ('curves', HI + ' plot_parameters, plot_gradients')],
     [],
     ['curves and error bars in the figures of all open windows'])

prop('M01', 'Indices and slices of MATLAB views select the same elements as in python',
     'Every integer index, slice and tuple of those accepted by a view of a MATLAB array is translated such that MATLAB '
     'selects exactly the elements, in the same order, that python selects from a sequence of the same length.',
     ['inputs'],
     'For all indices, slices (any sign of start, stop and step) and lengths for which python has a result.',
     'There is no test without MATLAB.',
     [M2],
     [('translation', M2 + ' transform_index')],
     [],
     ['translated index interpreted with the semantics of MATLAB'])

prop('M02', 'Setting some gates through MATLAB keeps all other gates',
     'Setting the voltages of some gates of a MATLAB controlled experiment sends exactly the requested values for these '
     'gates and the present values for all others; reading returns every gate under its own name. Numbers arrive in MATLAB '
     'with their value and arrays with their shape and order.',
     ['inputs', 'histories'],
     'For all subsets and orders of gates, values and numeric types.',
     'There is no test without MATLAB.',
     [SM, QQ],
     [('merge', SM + ' LegacyDQDRefactored.set_gate_voltages, ' + QQ + ' set_gate_voltages'),
      ('conversion', SM + ' SpecialMeasureMatlab.to_matlab')],
     [],
     ['calls received by the (stub) engine'])

prop('M03', 'MATLAB sessions are connected once and prepared without overwriting',
     'Connecting to a MATLAB session that is in use shares the existing connection instead of connecting again; a session '
     'requested by name is the one that answers, and a new one is started exactly if none is asked for. The set-up script '
     'runs exactly where its result is missing, and its failure is reported. The MATLAB files of this qtune are found '
     'afterwards; files of another qtune are replaced with a warning, silently or not at all, as demanded.',
     ['histories', 'inputs'],
     'For all sequences of connecting and releasing sessions by several users and all initial states of the sessions.',
     'There is no test without MATLAB.',
     [SM],
     [('registry', SM + ' SpecialMeasureMatlab._start_engine/_connect_to_engine'),
      ('preparation', SM + ' SpecialMeasureMatlab._init_special_measure/_add_qtune_to_path')],
     [('connected_engines', 'connections in use', SM)],
     ['calls received by the (stub) sessions'])

prop('M04', 'Evaluators of the quadruple dot report what the analysis found',
     'An evaluation with the MATLAB analysis of the quadruple dot measures once and assigns to every declared parameter its '
     'value in the result of this analysis, with a variance as estimated from the configured error and the residuals; '
     'values outside of the configured limits and transitions that are too small are undefined. The name of the file '
     'with the data is stored, and a stored evaluator gives the same results when it is loaded.',
     ['inputs', 'histories'],
     'For all results of analyses, limits, errors and names of parameters.',
     'There is no test without MATLAB.',
     [QQ, M2],
     [('analysis', QQ + ' QQDLine, QQDLead, QQDSensor1D, QQDSensor2D, QQDCharge, QQDDistTP, QQDResp')],
     [],
     ['returned values and variances'])

ids = [p['id'] for p in P]
assert len(ids) == len(set(ids))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
