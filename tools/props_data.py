"""Source of properties.jsonl and of the property part of MANIFEST.json (see gen.py)."""
S = 'src/skmultiflow/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=n, where=S + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


prop('C01', 'Finite data sources deliver every record exactly once, in order, aligned',
     'A stream built from an array, a data frame or a CSV file hands out every record exactly once, in source order, with each '
     'row\'s features and targets taken from the columns the configuration designates, whatever sequence of batch sizes, '
     'end-of-stream questions and restarts is used. The reported remaining count, the answer to "are there more samples" and the '
     'advertised feature/target counts always agree with what is still to be delivered.',
     ['inputs', 'histories', 'configurations'],
     'every table shape, target-column placement, target count and categorical layout within the bound, times every sequence of '
     'next_sample(k)/restart/has_more/n_remaining/last_sample calls up to the depth bound',
     'The tests read one or two fixed files with one batch size each, so an off-by-one that needs a particular batch split, a '
     'restart in mid-stream or a non-default target column is not reached.',
     ['data/data_stream.py', 'data/file_stream.py', 'data/base_stream.py'],
     [('cursor over the stored table', 'data/data_stream.py: next_sample / n_remaining_samples / restart'),
      ('column selection', 'data/data_stream.py: _load_X_y / _load_data / y setter')],
     ['DataStream.next_sample', 'FileStream.next_sample', 'n_remaining_samples', 'has_more_samples'])

prop('C02', 'A seeded generator replays one fixed sequence',
     'For a fixed configuration and seed, a synthetic stream is one fixed infinite (or bounded) sequence of samples: cutting it '
     'into batches differently, restarting it, building a second identical instance, or using other instances and the global '
     'random generator in between never changes which sample comes at which position. Asking for metadata never consumes samples.',
     ['histories', 'configurations', 'schedules'],
     'every generator and option combination in the bound, every way of cutting the first n samples into batches, every '
     'interleaving of calls on two instances and of restarts up to the depth bound',
     'Tests draw one batch per generator with one seed; interleavings of instances, restarts in mid-stream and uneven batch '
     'sizes are never combined.',
     ['data/sea_generator.py', 'data/agrawal_generator.py', 'data/sine_generator.py', 'data/led_generator.py',
      'data/led_generator_drift.py', 'data/mixed_generator.py', 'data/stagger_generator.py', 'data/hyper_plane_generator.py',
      'data/waveform_generator.py', 'data/random_rbf_generator.py', 'data/random_rbf_generator_drift.py',
      'data/random_tree_generator.py', 'data/regression_generator.py', 'data/multilabel_generator.py',
      'data/anomaly_sine_generator.py', 'data/concept_drift_stream.py'],
     [('per-instance random state re-created on prepare/restart', 'data/*: _prepare_for_use'),
      ('sequential draws only', 'data/*: next_sample')],
     ['next_sample', 'restart', 'last_sample'])

prop('C03', 'Synthetic samples obey the documented concept and metadata',
     'Every sample a synthetic generator emits has the advertised number of features and targets, feature values inside the '
     'documented domain, and (noise off) exactly the target that the documented concept of the selected classification function '
     'assigns to those features. Switching the concept with the drift call changes later samples only, to another documented concept.',
     ['inputs', 'configurations', 'histories'],
     'every classification function and option combination, times every point of a grid of random-number answers fed to the '
     'generator, times drift calls at every position of a short history',
     'Tests compare ten fixed samples per generator; a wrong boundary or a wrong branch of one concept function that those ten '
     'samples do not reach goes unnoticed.',
     ['data/sea_generator.py', 'data/agrawal_generator.py', 'data/sine_generator.py', 'data/led_generator.py',
      'data/mixed_generator.py', 'data/stagger_generator.py', 'data/hyper_plane_generator.py', 'data/waveform_generator.py',
      'data/random_rbf_generator.py', 'data/random_tree_generator.py', 'data/anomaly_sine_generator.py'],
     [('classification functions', 'data/*: _classification_function_* / next_sample')],
     ['next_sample', 'generate_drift'])

prop('C04', 'Class balancing really alternates the classes and only drops samples',
     'With class balancing on, a two-class generator\'s labels alternate perfectly from sample to sample, so that after every '
     'delivered prefix the class counts differ by at most one. Each delivered sample is one that the generator could have produced '
     'without balancing, with its label unchanged.',
     ['inputs', 'histories', 'configurations'],
     'all balanceable generators and concepts, all answer sequences of the random source within the bound, all batch cuts',
     'Tests check one fixed seed; the skip-and-alternate logic depends on the run of labels drawn.',
     ['data/sea_generator.py', 'data/agrawal_generator.py', 'data/sine_generator.py', 'data/mixed_generator.py',
      'data/stagger_generator.py'],
     [('next_class_should_be_zero toggle', 'data/*: next_sample')], ['next_sample'])

prop('C05', 'A concept-drift stream is an order-preserving merge of its two streams',
     'A concept-drift stream delivers, at every position, the next unread sample of exactly one of its two source streams, '
     'unchanged and without skipping any of that source; position t comes from the second source exactly when the random draw for '
     't does not exceed the documented sigmoid of t around the drift position. Batch cutting does not matter and a restart begins '
     'the same merge again from the start of both sources.',
     ['inputs', 'histories', 'configurations'],
     'all source-selection patterns of the first n positions (scripted random answers), all batch cuts, all (position, width, alpha) '
     'in the grid, restarts at every position',
     'Tests look at one seed, one position and width.',
     ['data/concept_drift_stream.py'],
     [('sigmoid selection', 'data/concept_drift_stream.py: next_sample'), ('position/width from alpha', 'data/concept_drift_stream.py: __init__')],
     ['ConceptDriftStream.next_sample'])

prop('C06', 'Delayed labels become available exactly when their time comes',
     'A temporal stream delivers its records in time order, each with its own target, arrival time, availability time and weight; '
     'and the delayed-label queue releases a queued record\'s label exactly once, never before its availability time, in order of availability, each '
     'still paired with the features and weight it was queued with. No queued record is lost or released twice whatever the '
     'interleaving of enqueue and query.',
     ['inputs', 'histories', 'schedules'],
     'all arrival orders, delay assignments (constant, per-record, equal times), batch cuts and interleavings of arrival and release '
     'up to the bound',
     'Tests use one monotone delay pattern.',
     ['data/temporal_data_stream.py', 'data/time_manager.py'],
     [('time-ordered table', 'data/temporal_data_stream.py: __init__/next_sample'), ('queue', 'data/time_manager.py')],
     ['TemporalDataStream.next_sample', 'TimeManager.get_available_samples'])

prop('C07', 'Prequential evaluation tests each sample once, before training on it',
     'During a prequential run every sample of the stream after the pre-training block is predicted exactly once by every model, in '
     'stream order, before any model has been trained on it, and is then used for training exactly once with its own label; the '
     'pre-training block is used for training only. The run stops at the first batch boundary at or after the configured number of samples, or at the end of the stream, '
     'having consumed nothing twice and skipped nothing.',
     ['configurations', 'histories', 'inputs'],
     'all combinations of stream length, pretrain size, batch size, max_samples, wait size, number of models, model kind and '
     'partial_fit vs. fit within the bound',
     'Tests run a handful of configurations and look only at final scores.',
     ['evaluation/evaluate_prequential.py', 'evaluation/base_evaluator.py'],
     [('predict-then-partial_fit loop', 'evaluation/evaluate_prequential.py: _train_and_test')],
     ['calls received by the models and the stream'])

prop('C08', 'Hold-out evaluation never trains on the samples it scores',
     'In a hold-out run, each evaluation scores every model on exactly the configured number of held-out samples, none of which any '
     'model was ever trained on, and training uses every other consumed sample exactly once in stream order. A static test set is drawn once '
     'and reused for every evaluation; a dynamic one is drawn fresh from the stream at every evaluation.',
     ['configurations', 'histories'],
     'all combinations of stream length, batch size, n_wait, test size, dynamic flag and max_samples in the bound',
     'Tests run one configuration per flavour.',
     ['evaluation/evaluate_holdout.py'], [('train/test split of the stream', 'evaluation/evaluate_holdout.py: _periodic_holdout')],
     ['calls received by the models and the stream'])

prop('C09', 'Delayed prequential evaluation uses a label only after its delay has passed',
     'In a prequential run with delayed labels every non-pretraining sample is predicted exactly once, at its arrival, and its label is used for training '
     'and scoring exactly once, not before its availability time is reached by the stream clock, always paired with the prediction made at arrival. '
     'Labels still outstanding when the stream ends are all used before the run finishes.',
     ['configurations', 'histories', 'schedules'],
     'all arrival/availability patterns, batch sizes, pretrain sizes and stream lengths in the bound',
     'Tests use one constant delay.',
     ['evaluation/evaluate_prequential_delayed.py', 'data/time_manager.py'],
     [('query/update queues', 'evaluation/evaluate_prequential_delayed.py')], ['calls received by the models'])

prop('C10', 'Reported evaluation results equal a recomputation from the raw predictions',
     'Every number an evaluator reports (mean and current measurement per model and metric) and every row of its output file is what '
     'one obtains by replaying the true labels and the predictions made so far through the metric definitions, per model, at the sample '
     'counts implied by the reporting interval. Rows are in increasing sample order, one per reporting step, with one value per announced column; a run that scored anything reports at least one row. '
     'This holds for prequential, hold-out and delayed prequential evaluation (there, a label counts when it becomes available).',
     ['configurations', 'histories'],
     'all metric sets, numbers of models, reporting intervals, batch sizes, task types and stream lengths in the bound',
     'Tests compare a fixed output file for one run.',
     ['evaluation/base_evaluator.py', 'evaluation/evaluate_prequential.py', 'evaluation/evaluate_holdout.py', 'evaluation/evaluate_prequential_delayed.py',
      'evaluation/evaluation_data_buffer.py'],
     [('measurement objects and file writer', 'evaluation/base_evaluator.py')],
     ['get_mean_measurements', 'get_current_measurements', 'output file'])

prop('C11', 'Cumulative classification metrics equal their definitions over the whole history',
     'After any sequence of observed (true, predicted, weight) results, the confusion table and every derived single-label and '
     'multi-label score (accuracy, kappa, kappa-t, kappa-m, precision, recall, F1, geometric mean, Hamming, Jaccard, exact match, last '
     'labels, majority class) equal their textbook value computed from that history alone. Reset returns the object to its initial '
     'behaviour and reading scores changes nothing.',
     ['inputs', 'histories'],
     'all label-pair sequences over 2-4 classes (incl. unseen, negative-free, out-of-order class ids) and all label-vector pairs up to the depth bound, '
     'with resets and reads at every point',
     'Tests use one fixed sequence and compare final scores.',
     ['metrics/_classification_performance_evaluator.pyx', 'metrics/_confusion_matrix.pyx', 'metrics/measure_collection.py'],
     [('incremental confusion matrix', 'metrics/_confusion_matrix.pyx'), ('score formulas', 'metrics/_classification_performance_evaluator.pyx')],
     ['all score methods'])

prop('C12', 'Windowed metrics equal the metric of exactly the last w results',
     'A windowed metric object with window size w reports, after any history, what its definition gives on exactly the last w '
     'results (or on all of them while there are fewer), for every metric it offers (the no-change and majority-class baselines behind kappa-t and kappa-m being judged as each result arrived). Reset returns it to its initial behaviour with the same window size.',
     ['inputs', 'histories', 'configurations'],
     'all window sizes up to 4 and all result sequences over the small label alphabet up to a depth well past the window, for '
     'single-label, multi-label, regression and multi-target windows',
     'Tests run one sequence with one window size; eviction errors depend on which result leaves the window.',
     ['metrics/_classification_performance_evaluator.pyx', 'metrics/measure_collection.py', 'utils/data_structures.py'],
     [('evict-oldest on add', 'metrics/_classification_performance_evaluator.pyx: Window*'), ('window buffers', 'metrics/measure_collection.py: Window*Measurements')],
     ['all score methods'])

prop('C13', 'Regression metrics and running statistics equal their definitions',
     'After any sequence of (true, predicted) values, the regression and multi-target regression measurements (mean square error, mean '
     'absolute error, their per-target averages and root, sample count, last values) equal their textbook value over that '
     'history, and the running Gaussian estimator\'s mean, variance, density, normal cumulative probability and the weight it reports below, at and above a value equal those of the weighted values added.',
     ['inputs', 'histories'],
     'all sequences over a small value alphabet (incl. negatives, repeats, extremes) up to the depth bound, with resets at every point',
     'Tests use one fixed sequence.',
     ['metrics/measure_collection.py', 'trees/gaussian_estimator.py', 'trees/_attribute_observer', 'utils/statistics.py'],
     [('running sums', 'metrics/measure_collection.py: RegressionMeasurements / MultiTargetRegressionMeasurements')],
     ['score methods'])

prop('C14', 'Contingency tables always hold exactly the counts that were put in',
     'The confusion matrix and the per-label multi-label table hold, after any sequence of additions, removals, growth and '
     'resets, exactly the weights added and not removed in each cell; totals, row and column sums, diagonals and per-label '
     'cells agree with those cells, refused operations change nothing, and a table grows to hold any class it is given.',
     ['histories', 'inputs'],
     'every sequence of add/remove/update/reset/read operations over small index sets (inside, at and beyond the current '
     'bounds) up to the depth bound',
     'Tests fill one table in one order; an index just past the bounds, a growth after a removal or a refused removal that '
     'still changes a cell is not tried.',
     ['metrics/_confusion_matrix.pyx', 'utils/data_structures.py'],
     [('growing table of weights', 'metrics/_confusion_matrix.pyx: add_result / remove_result / resize'),
      ('dense table and multi-label table', 'utils/data_structures.py: ConfusionMatrix / MOLConfusionMatrix')],
     ['ConfusionMatrix.update', 'MOLConfusionMatrix.update'])

prop('C15', 'Drift detectors signal exactly when their documented test says so',
     'For any input sequence, each supervised drift detector (DDM, EDDM, Page-Hinkley, HDDM-A, HDDM-W) raises its warning and drift '
     'flags at exactly the steps at which its documented statistical test, computed from the inputs since the last reset, crosses the '
     'configured thresholds and the configured minimum number of instances has been seen. Outside those steps the flags are off.',
     ['inputs', 'histories', 'configurations'],
     'all binary input sequences up to the depth bound from the fresh state and after long deterministic preambles, all threshold '
     'settings in the grid',
     'Tests feed one pseudo-random sequence and compare the indices at which drift was flagged.',
     ['drift_detection/ddm.py', 'drift_detection/eddm.py', 'drift_detection/page_hinkley.py', 'drift_detection/hddm_a.py', 'drift_detection/hddm_w.py'],
     [('incremental test statistics', 'drift_detection/*: add_element')], ['detected_change', 'detected_warning_zone'])

prop('C16', 'The adaptive window always describes a suffix of its input',
     'After any input sequence the ADWIN window\'s width, total and mean equal the length, sum and mean of a suffix of the '
     'inputs, the window shrinks exactly when a change is reported, and it never reports change on a constant input. A cut is '
     'reported exactly when some split of the retained bucket structure violates the documented bound at a checking step.',
     ['inputs', 'histories', 'configurations'],
     'all binary/ternary sequences up to the depth bound and exhaustive suffixes after long preambles, all delta in the grid, '
     'including a reference model of the exponential histogram',
     'Tests feed one sequence with a single step and look at the detection index.',
     ['drift_detection/adwin.py'],
     [('exponential histogram', 'drift_detection/adwin.py: insert/compress/delete'), ('cut test', 'drift_detection/adwin.py: detected_change')],
     ['width', 'total', 'estimation', 'variance', 'detected_change'])

prop('C17', 'A reset or drift-triggered restart of a detector forgets the past completely',
     'After a reset every change detector (and DDM, EDDM, Page-Hinkley and the HDDM detectors on the first input after they have signalled drift) '
     'flags change and warning on all further inputs exactly as a newly built detector with the same parameters does; ADWIN and KSWIN keep their newest '
     'window after a drift, as documented. Detector instances never influence each other.',
     ['histories', 'inputs', 'schedules'],
     'all pairs (history before reset, continuation) up to the depth bound for every detector, all interleavings of two instances',
     'Tests never compare continuations after a reset.',
     ['drift_detection/ddm.py', 'drift_detection/eddm.py', 'drift_detection/page_hinkley.py', 'drift_detection/hddm_a.py',
      'drift_detection/hddm_w.py', 'drift_detection/adwin.py', 'drift_detection/kswin.py', 'drift_detection/base_drift_detector.py'],
     [('reset methods', 'drift_detection/*: reset')], ['detected_change', 'detected_warning_zone'])

prop('C18', 'Bounded buffers keep exactly the newest items, in order',
     'The sample window, the FIFO helper buffers and the evaluation data buffer hold exactly the last (capacity) items inserted since they were last '
     'cleared, each item\'s features still paired with its own target (FIFO buffers oldest first; removing takes the oldest and returns it); '
     'the evaluation data buffer only ever shows the values stored for the current sample id.',
     ['histories', 'configurations'],
     'all sequences of add/remove/clear/peek operations up to the depth bound for every capacity in the bound and every buffer type',
     'Tests perform one scripted sequence per class.',
     ['utils/data_structures.py', 'evaluation/evaluation_data_buffer.py'],
     [('FIFO with eviction', 'utils/data_structures.py')], ['buffer contents'])

prop('C19', 'Streaming transformers compute their documented function of the window',
     'For every input history, each streaming transformer returns for each row exactly the documented function of that row and the '
     'statistics of the rows it was fitted on so far within its window (missing-value replacement, standardisation, min-max '
     'scaling, one-hot recoding), keeping shape, row order and all untouched columns; a transformed row itself enters the window (after it was scaled, and before its missing values are replaced), and neither the '
     'caller\'s data nor the window is ever shared or overwritten.',
     ['inputs', 'histories', 'configurations'],
     'all matrices over a tiny value alphabet (with missing markers) in all batch cuts up to the bound, for every strategy and window size',
     'Tests use one matrix per strategy.',
     ['transform/missing_values_cleaner.py', 'transform/windowed_standard_scaler.py', 'transform/windowed_minmax_scaler.py', 'transform/one_hot_to_categorical.py'],
     [('window statistics', 'transform/*')], ['transform', 'partial_fit_transform'])

prop('C20', 'A pipeline equals the composition of its steps',
     'For every list of transformers and final estimator, a pipeline\'s fit/partial_fit and predict results equal those of applying the transformers by hand in order, '
     'one after the other, and calling the final estimator with the transformed data and the caller\'s targets; no step is skipped, '
     'repeated or reordered, and steps are reachable under their given names.',
     ['configurations', 'histories', 'inputs'],
     'all pipelines of up to 3 transformers and every kind of final step, all call sequences up to the depth bound',
     'Tests build one two-step pipeline.',
     ['core/pipeline.py'], [('step iteration', 'core/pipeline.py')], ['calls received by each step'])

prop('C21', 'Parameters survive get/set/clone and cloning shares nothing',
     'For every estimator, stream, detector and transformer the parameters read back are those it was constructed with, setting parameters then reading them back '
     'returns what was set, and a clone has equal parameters, behaves like a new unfitted object and shares no mutable state with '
     'the original.',
     ['configurations', 'histories'],
     'every public class, every single-parameter variation in the grid, every order of clone/fit/set up to the bound',
     'Tests clone one or two estimators.',
     ['core/base.py'], [('constructor introspection', 'core/base.py: get_params/set_params/clone')], ['get_params', 'set_params', 'clone'])

prop('C22', 'Nearest-neighbour learners answer as brute force over the retained window does',
     'For any history of training and clearing, the k-nearest-neighbour classifier and regressor answer each query row exactly from '
     'the k closest of the last max-window-size training samples (majority label / class frequency / mean or median target), independent of '
     'leaf size and of the other rows of the query.',
     ['inputs', 'histories', 'configurations'],
     'all training histories on a tiny grid up to the depth bound, all grid queries, all k, window size, leaf size, metric and aggregation in the grid',
     'Tests check one dataset and its final accuracy.',
     ['lazy/knn_classifier.py', 'lazy/knn_regressor.py', 'lazy/base_neighbors.py', 'lazy/knn_adwin.py', 'utils/data_structures.py'],
     [('sliding window + kd-tree query', 'lazy/base_neighbors.py')], ['predict', 'predict_proba'])

prop('C23', 'Naive Bayes answers equal Bayes\' rule over the weighted training history',
     'For any history of weighted training samples, the naive Bayes classifier\'s class scores equal class weight times the product of the '
     'per-attribute likelihoods estimated from that history alone (Gaussian for numeric, Laplace-corrected frequency for nominal attributes), '
     'normalised to sum one, and its prediction is a class with maximal score.',
     ['inputs', 'histories', 'configurations'],
     'all weighted training histories over a tiny grid up to the depth bound, all nominal/numeric attribute configurations, all grid queries',
     'Tests check one generated stream\'s final accuracy.',
     ['bayes/naive_bayes.py', 'bayes/utils.py', 'trees/_attribute_observer'],
     [('per-class attribute observers', 'bayes/naive_bayes.py')], ['predict_proba', 'predict'])

prop('C24', 'A Hoeffding tree is the tree its documented split rule defines',
     'For any training history the Hoeffding tree classifier holds exactly the tree obtained by splitting a leaf when, at a grace-period check, '
     'the best split\'s merit exceeds the runner-up\'s by the Hoeffding bound (or the bound falls below the tie threshold) on the samples that '
     'reached that leaf, and each leaf answers by majority class, naive Bayes or the adaptive choice computed from exactly the samples routed to it. Every sample reaches exactly one leaf.',
     ['inputs', 'histories', 'configurations'],
     'all training histories over a tiny attribute/class grid up to the depth bound, with small grace periods so that splits occur, for all '
     'leaf predictors, split criteria, nominal/numeric and binary/multiway configurations in the grid',
     'Tests train one tree on one generated stream and compare a printed description.',
     ['trees/hoeffding_tree.py', 'trees/_nodes', 'trees/_attribute_observer', 'trees/_split_criterion', 'trees/_attribute_test'],
     [('split attempt', 'trees/hoeffding_tree.py: _attempt_to_split'), ('routing', 'trees/_nodes'), ('observers', 'trees/_attribute_observer')],
     ['predict', 'predict_proba', 'get_model_description', 'get_votes'])

prop('C25', 'Regression trees split by variance reduction and answer from the routed samples',
     'For any training history the (single- and multi-target) Hoeffding regression trees split a leaf exactly when the documented '
     'variance-reduction ratio test holds on the samples that reached it, and with mean leaves every query is answered by the (weighted) mean target of '
     'exactly the training samples accounted to the leaf it is routed to; with perceptron or adaptive leaves it is answered by the leaf\'s linear model(s), trained on exactly the normalised samples routed there '
     '(inherited from the parent leaf at a split).',
     ['inputs', 'histories', 'configurations'],
     'all training histories over a tiny grid up to the depth bound, small grace periods, all leaf predictors and nominal/numeric settings in the grid',
     'Tests train one tree on one stream.',
     ['trees/hoeffding_tree_regressor.py', 'trees/isoup_tree.py', 'trees/_nodes', 'trees/_split_criterion', 'trees/_attribute_observer'],
     [('split attempt', 'trees/hoeffding_tree_regressor.py: _attempt_to_split'), ('E-BST', 'trees/_attribute_observer')],
     ['predict', 'get_model_description'])

prop('C26', 'Predicting a batch equals predicting its rows one by one',
     'For every learner in the library and every reachable trained state, the predictions (and probabilities) for a batch of rows are exactly the '
     'row-by-row predictions, in order and with one entry per row; the same holds for a one-row batch.',
     ['inputs', 'histories', 'configurations'],
     'every learner, trained on every history in the bounded set, all query batches over a grid of rows (incl. repeats and permutations)',
     'Tests always predict with one batch layout.',
     ['lazy', 'bayes', 'trees', 'meta', 'rules', 'neural_networks', 'prototype', 'anomaly_detection'],
     [('per-row loops in predict', '*: predict / predict_proba')], ['predict', 'predict_proba'])

prop('C27', 'Asking for predictions changes nothing; training never changes the caller\'s data',
     'For every learner, detector query and metric read, inserting any number of prediction calls anywhere in a training history changes no later '
     'observable answer; and no call to a learner, transformer-free evaluator or metric modifies the arrays passed in by the caller.',
     ['histories', 'schedules', 'configurations'],
     'every learner, every position and combination of inserted read-only calls in the bounded training histories',
     'Tests follow one fixed train/predict schedule.',
     ['lazy', 'bayes', 'trees', 'meta', 'rules', 'neural_networks', 'prototype', 'anomaly_detection'],
     [('read-only predict paths', '*: predict / predict_proba')], ['predict', 'predict_proba'])

prop('C28', 'Cutting a training sequence into batches differently changes nothing',
     'For every instance-incremental learner, training on a sequence in any batch cut leads to exactly the same later predictions '
     'as training one sample at a time in the same order with the same weights.',
     ['histories', 'configurations', 'inputs'],
     'every instance-incremental learner, every way of cutting the bounded training sequences into batches, with and without weights',
     'Tests train with one batch layout each.',
     ['lazy', 'bayes', 'trees', 'meta', 'rules'],
     [('row loop in partial_fit', '*: partial_fit')], ['predict', 'predict_proba'])

prop('C29', 'Seeded learners are deterministic and instances are isolated',
     'Two learners built with the same parameters and seed and trained with the same calls always give the same answers, no matter what other '
     'instances of the library are created, trained or queried in between or what happens to the global random generator.',
     ['schedules', 'histories', 'configurations'],
     'every seeded learner, every interleaving of the calls of two instances (and of global-generator perturbations) in the bound',
     'Tests use one instance at a time.',
     ['meta', 'trees', 'anomaly_detection', 'rules', 'core/base.py', 'utils/validation.py'],
     [('per-instance random state', '*: check_random_state')], ['predict', 'predict_proba'])

prop('C30', 'Predictions stay inside the label space and probabilities are probabilities',
     'For every classifier and every training history, each predicted label is one of the classes declared or observed so far, each row of '
     'reported class probabilities is non-negative, all rows have one column per known class (or per label up to the largest known one) and sum to one, and for '
     'probability-based classifiers the predicted class has maximal reported probability. Where no class has a positive score (nothing learned yet, zero likelihood) '
     'the row is all zero and the answer is the default label 0.',
     ['inputs', 'histories', 'configurations'],
     'every classifier, all label orders (incl. non-contiguous labels and classes declared but unseen) over the bounded histories',
     'Tests use contiguous 0/1 labels in one order.',
     ['lazy', 'bayes', 'trees', 'meta', 'rules', 'neural_networks', 'prototype'],
     [('vote normalisation', '*: predict_proba')], ['predict', 'predict_proba'])

prop('C31', 'Resetting a learner makes it indistinguishable from a new one',
     'For every learner that offers a reset, after any training history a reset followed by any continuation gives exactly the answers that a newly built '
     'learner with the same parameters gives on that continuation.',
     ['histories', 'configurations'],
     'every learner with a reset, all (history, continuation) pairs in the bound',
     'Tests call reset and check that one attribute changed.',
     ['lazy', 'bayes', 'trees', 'meta', 'rules', 'anomaly_detection', 'core/base.py'],
     [('reset methods', '*: reset')], ['predict', 'predict_proba'])

prop('C32', 'Multi-output learners and chains compose their base learners as documented',
     'A multi-output wrapper trains and queries one independent copy of the base learner per target with that target\'s column; a classifier or regressor '
     'chain feeds each learner the features plus the targets (when training) or the predictions (when predicting) of exactly the preceding links of its chain order; '
     'and predictions come back in the original target order.',
     ['inputs', 'histories', 'configurations'],
     'all numbers of targets, chain orders, batch cuts and training histories in the bound, with recording base learners',
     'Tests check the final score of one chain.',
     ['meta/multi_output_learner.py', 'meta/classifier_chains.py', 'meta/regressor_chains.py'],
     [('chain propagation', 'meta/classifier_chains.py')], ['calls received by the base learners', 'predict'])

prop('C33', 'Online ensembles train members by the drawn counts and vote over all of them',
     'In every online bagging/boosting ensemble, each arriving sample is presented to each member exactly as often (or with the weight) that the documented update rule '
     'and the random draw for that member prescribe, no member is trained on samples it did not draw, and the ensemble answer is the documented aggregation of its members\' answers. '
     'A member is reset only after a sample on which some member\'s own change detector signals a rise of its error, and it is then the one with the worst current error estimate.',
     ['inputs', 'histories', 'schedules'],
     'all random-draw sequences within the deviation bound (scripted generator), all member answers, all label sequences in the bound, with recording base learners',
     'Tests compare one seed\'s final prediction.',
     ['meta/oza_bagging.py', 'meta/oza_bagging_adwin.py', 'meta/leverage_bagging.py', 'meta/online_boosting.py', 'meta/online_adac2.py',
      'meta/online_csb2.py', 'meta/online_rus_boost.py', 'meta/online_smote_bagging.py', 'meta/online_under_over_bagging.py'],
     [('Poisson(lambda) replication', 'meta/*: partial_fit')], ['calls received by the base learners', 'predict'])

prop('C34', 'Chunk ensembles weight, replace and bound their members as documented',
     'The chunk-based ensembles train one new member per full chunk on exactly that chunk\'s samples, never keep more members than configured, drop '
     'and weight members by the documented error of each member on the newest chunk, and vote with those weights.',
     ['inputs', 'histories', 'configurations'],
     'all sequences of chunks and of member error patterns in the bound (scripted base learners), all chunk sizes and ensemble bounds in the grid, all batch cuts',
     'Tests check one stream\'s final accuracy.',
     ['meta/accuracy_weighted_ensemble.py', 'meta/learn_nse.py', 'meta/learn_pp.py', 'meta/batch_incremental.py'],
     [('chunk buffer and weighting', 'meta/*: partial_fit')], ['calls received by the base learners', 'predict'])

prop('C35', 'Expert ensembles update weights, prune and add experts as documented',
     'In the dynamic weighted majority and additive expert ensembles an expert\'s weight is multiplied by beta exactly when it errs (at update steps), '
     'the ensemble answers with the weighted majority, adds an expert when and only when the ensemble errs, removes only experts below the '
     'threshold or the documented victim when full, and never exceeds the configured size.',
     ['inputs', 'histories', 'configurations'],
     'all patterns of expert answers and labels in the bound (scripted base learners), all beta/theta/period/size/pruning settings in the grid',
     'Tests check one stream\'s final accuracy.',
     ['meta/dynamic_weighted_majority.py', 'meta/additive_expert_ensemble.py'],
     [('weight update', 'meta/*: fit_single_sample')], ['calls received by the experts', 'predict'])

prop('C36', 'Drift-aware forests replace a member only by its own background learner',
     'In the adaptive random forests and streaming random patches every member trains on its own drawn replicas of each sample, starts a background learner '
     'only on its own warning, replaces its foreground learner exactly when its own drift detector fires (by the background learner if there is one, else by a fresh one), and the '
     'ensemble answer is the documented weighted aggregation of the members\' answers.',
     ['inputs', 'histories', 'schedules'],
     'all patterns of detector signals and random draws in the bound (scripted detectors and generator), all ensemble sizes and option settings in the grid',
     'Tests compare one seed\'s final prediction.',
     ['meta/adaptive_random_forests.py', 'meta/adaptive_random_forest_regressor.py', 'meta/streaming_random_patches.py'],
     [('warning/drift handling', 'meta/adaptive_random_forests.py: ARFBaseLearner.partial_fit')], ['predict', 'predict_proba'])

prop('C37', 'Rule learners answer from the rules that cover the query',
     'For any training history the decision-rule classifier answers each query from exactly the rules whose conditions it satisfies (the first one '
     'when ordered, all of them by the configured combination when unordered, the default rule otherwise), with each rule\'s class statistics those of the samples '
     'it covered since it was last expanded; a rule is created or expanded only when the Hoeffding test of the chosen criterion passes (per class for FOIL) and there are never more than max_rules rules; asking for predictions or the rule list never changes the rules.',
     ['inputs', 'histories', 'configurations'],
     'all training histories over a tiny grid up to the depth bound with small grace periods, all ordered/unordered, nominal/numeric and prediction settings',
     'Tests train one rule set on one stream.',
     ['rules/very_fast_decision_rules.py', 'rules/base_rule.py'],
     [('rule coverage and expansion', 'rules/very_fast_decision_rules.py')], ['predict', 'predict_proba', 'get_model_rules'])

prop('C38', 'Half-space-tree scores reflect only the reference window\'s mass',
     'The half-space-trees detector scores each query row from the mass profile learned on the last completed window alone: the score of a row is the documented '
     'depth-weighted sum of the reference masses of the nodes it falls into, averaged over trees and independent of the other rows queried; the trees halve the range of a randomly drawn feature (any of them) at every node, and the profile is '
     'replaced by the latest window\'s masses exactly at each window boundary.',
     ['inputs', 'histories', 'configurations'],
     'all training histories over a tiny grid in all batch cuts up to the bound, all window sizes, depths, numbers of trees, size limits and thresholds in the grid',
     'Tests check one seed\'s scores.',
     ['anomaly_detection/half_space_trees.py'],
     [('mass update and swap', 'anomaly_detection/half_space_trees.py')], ['predict', 'predict_proba'])

prop('C39', 'Self-adjusting memory keeps its memories consistent with the samples seen',
     'In the self-adjusting-memory kNN classifier the short-term memory is always a suffix of the training samples with their own labels, no memory ever exceeds its '
     'configured maximum, memories only hold samples (or, after compression, centroids) of the labels seen, the native distance/vote kernels equal their mathematical definition, and each query is '
     'answered by the currently best of the documented memories.',
     ['inputs', 'histories', 'configurations'],
     'all training histories over a tiny grid up to the depth bound, all window/neighbour/weighting/long-term settings in the grid; all small integer inputs for the native kernels',
     'Tests check one stream\'s final accuracy.',
     ['lazy/sam_knn.py', 'lazy/src/libNearestNeighbors/nearestNeighbor.cpp'],
     [('memory maintenance', 'lazy/sam_knn.py'), ('native kernels', 'lazy/src/libNearestNeighbors/nearestNeighbor.cpp')], ['predict', 'STMSamples/LTMSamples'])

prop('C40', 'A sample of weight k counts as k repetitions and weight zero counts as absent',
     'For every learner whose documentation says weights are absorbed by repetition or by weighted statistics, training with an integer weight k has the same effect on later answers as '
     'presenting the same sample k times in a row where the statistics are order-free, and a sample of weight zero has no effect at all.',
     ['inputs', 'histories', 'configurations'],
     'all weight assignments in {0,1,2,3} over the bounded training histories for every weight-supporting learner',
     'Tests never train with weights other than one.',
     ['trees', 'bayes', 'meta', 'rules'],
     [('weighted statistics', '*: partial_fit')], ['predict', 'predict_proba'])

prop('C41', 'The KS-window detector tests exactly its own sliding window',
     'The Kolmogorov-Smirnov window detector keeps exactly the last window-size inputs; when an input arrives at a full window it first tests the newest block against a sample drawn '
     'from the older part, flags change exactly when that two-sample test rejects at the configured level (and the distance bound holds), and after a change continues '
     'with the newest block and the current input only. It never flags before the window is full.',
     ['inputs', 'histories', 'configurations'],
     'all sequences over a small value alphabet up to the depth bound for all window sizes, block sizes and levels in the grid, all draws of the random sample',
     'Tests use one sequence.',
     ['drift_detection/kswin.py'], [('window and test', 'drift_detection/kswin.py: add_element')], ['detected_change', 'window'])

prop('C42', 'Linear and prototype learners apply their update rule to every sample',
     'The linear and prototype-based learners pass every training sample, label, declared class and weight unchanged and in order to their update rule, and the prototype learner\'s prototypes after '
     'any history equal those of its documented update rule applied to that history, answering with the label of the nearest prototype.',
     ['inputs', 'histories', 'configurations'],
     'all training histories over a tiny grid up to the depth bound, all optimiser/prototype settings in the grid',
     'Tests check one stream.',
     ['prototype/robust_soft_learning_vector_quantization.py', 'neural_networks/perceptron.py'],
     [('prototype update', 'prototype/robust_soft_learning_vector_quantization.py'), ('delegation', 'neural_networks/perceptron.py')], ['predict', 'prototypes'])

prop('C43', 'A saved or copied object resumes exactly where it was',
     'Every stream, learner, detector, transformer, metric and buffer can be pickled or deep-copied at any point of its life; the restored object answers every later call exactly as the original '
     'would have, including the random draws still to come, and neither saving nor later use of the copy has any effect on the original.',
     ['crash points', 'histories', 'configurations'],
     'a checkpoint after every call (every third one in long histories) of every object\'s bounded history, three ways of saving, resumed to the end of the history',
     'No test saves an object in the middle of its life.',
     ['core/base.py', 'trees', 'meta', 'data', 'lazy', 'drift_detection', 'metrics'],
     [('state capture', 'core/base.py: BaseEstimator.__getstate__/__setstate__')], ['pickle', 'copy.deepcopy', 'every public method'])

prop('C44', 'An adaptive tree replaces a branch exactly when its alternate is better',
     'While no split node\'s error rises, the Hoeffding adaptive tree classifier is the ordinary Hoeffding tree of its history. When the change detector of a split node reports a rise, an alternate tree '
     'is started there and from then on learns every sample reaching the node without influencing any answer; it takes the node\'s place exactly when both have enough observations and its error is significantly '
     'lower, and is discarded exactly when it is significantly higher; the counters of alternates grown, switched and pruned say what happened.',
     ['inputs', 'histories', 'schedules', 'configurations'],
     'all continuations up to the depth bound after preambles that lead to alternates, all alarm patterns of a tiny change monitor standing in for ADWIN, all leaf predictors and split criteria in the grid',
     'Tests compare one seed\'s final answers, in which hardly any alternate is grown.',
     ['trees/hoeffding_adaptive_tree.py', 'trees/_nodes/hatc_nodes.py'],
     [('alternate trees', 'trees/_nodes/hatc_nodes.py: AdaSplitNode.learn_one'), ('votes', 'trees/hoeffding_adaptive_tree.py: _get_votes_for_instance')], ['predict', 'predict_proba', 'alternate_trees_cnt'])

prop('C45', 'Deprecated names build what their replacements build',
     'Calling any deprecated constructor name, by keyword or by position, builds the same object as calling its replacement with the same arguments: the same class, every argument in the right parameter, the same defaults.',
     ['inputs', 'configurations'],
     'all deprecated names, every parameter singly and in pairs over its values',
     'Nothing in the tests calls the deprecated names.',
     ['trees', 'lazy', 'meta', 'rules'],
     [('forwarding functions', '*: module-level functions with the old names')], ['the deprecated names'])

prop('C46', 'score is the documented metric of the learner\'s own predictions',
     'For every learner, training history, query batch, true values and sample weights, score equals the weighted accuracy (all labels of a row for multi-label learners) or the variance-weighted R2 of what predict returns.',
     ['inputs', 'histories', 'configurations'],
     'all true-label vectors over the query rows, three weightings, several training states of every learner',
     'No test calls score.',
     ['core/base.py'],
     [('metric', 'core/base.py: ClassifierMixin.score, RegressorMixin.score')], ['score'])

prop('C47', 'Random-subspace ensembles give each member the documented number of features',
     'Every member of the streaming random patches trains and predicts on one and the same set of distinct features whose size is the documented function of subspace_mode, subspace_size and the number of features '
     '(members have different subsets while there are enough), and every leaf of an adaptive random forest tree considers exactly the number of distinct random features that max_features documents, with every feature within reach.',
     ['configurations', 'random choices'],
     'all option values in the grid x feature counts x ensemble sizes x seeds',
     'Tests use two or three settings and look at the accuracy.',
     ['meta', 'trees'],
     [('subspaces', 'meta/streaming_random_patches.py: _init_ensemble, _init_ensemble_members, get_all_k_combinations, get_random_k_combinations'),
      ('max_features', 'meta/adaptive_random_forests.py, adaptive_random_forest_regressor.py: _set_max_features; trees/_nodes/arf_htc_nodes.py: _sample_features')],
     ['predictions', 'columns given to the members'])

prop('C48', "The extremely fast decision tree keeps at every node its rule's best split",
     'After any training history, ExtremelyFastDecisionTreeClassifier is the tree its rule defines: a leaf splits as soon as its best candidate beats "no split" by the Hoeffding bound (or the bound is below the tie threshold); '
     'an inner node that has observed min_samples_reevaluate since its split was made is replaced by the best attribute when that beats the current one by the bound, and turns back into a leaf with its statistics when no split beats all; '
     'every node on the path learns every sample with its weight, a nominal value not seen at the split gets its own branch, '
     'and predictions come from the reached leaf as leaf_prediction says. Reported node, leaf and depth counts describe that tree.',
     ['histories'],
     'all histories over a 5-symbol weighted alphabet after six preambles x configurations',
     'Tests fix one long run and compare its predictions.',
     ['trees'],
     [('re-evaluation', 'trees/extremely_fast_decision_tree.py: _process_nodes, _reevaluate_best_split, _attempt_to_split, _kill_subtree'),
      ('node statistics', 'trees/_nodes/efdtc_nodes.py')],
     ['predict_proba', 'model measurements'])
