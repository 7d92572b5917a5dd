"""Marker streams, recording models and reference computations for the evaluator checks (C07-C10)."""
import contextlib
import io

import numpy as np

from mc.metrics_ref import MultiLabelModel, RegressionModel, SingleLabelModel
from skmultiflow.data import DataStream
from skmultiflow.data.base_stream import Stream

TASKS = ('class', 'multilabel', 'regression', 'multitarget')


def label(task, i):
    if task == 'class':
        return (i * 7 // 3) % 3
    if task == 'multilabel':
        return (i % 2, (i // 2) % 2)
    if task == 'regression':
        return ((i * 5) % 7) / 2
    return (((i * 5) % 7) / 2, (i % 3) - 0.25)


def guess(task, model, i):
    """The scripted prediction of model number `model` for record i: right on some, wrong on others."""
    if task == 'class':
        return (label(task, i) + (1 if (i + model) % (2 + model) == 0 else 0)) % 3
    if task == 'multilabel':
        a, b = label(task, i)
        return (a ^ ((i + model) % 3 == 0), b ^ ((i + model) % 4 == 1))
    if task == 'regression':
        return label(task, i) + ((i + model) % 3 - 1) / 4
    a, b = label(task, i)
    return (a + ((i + model) % 3 - 1) / 4, b - ((i * 2 + model) % 5) / 8)


def rows(ids):
    return np.array([[float(i), i * 10 + 0.5] for i in ids]).reshape(len(ids), 2)


def labels(task, ids):
    y = np.array([label(task, i) for i in ids])
    if task in ('class', 'multilabel'):
        y = y.astype(int)
    return y if len(ids) else y.reshape((0, 2) if task[:5] == 'multi' else (0,))


def finite_stream(task, n):
    return DataStream(rows(range(n)), labels(task, range(n)))


class EndlessStream(Stream):
    """A never-ending source (remaining count -1), numbered records."""

    def __init__(self, task):
        super().__init__()
        self.task = task
        self.name = 'endless'
        self.n_features = 2
        self.n_targets = 2 if task[:5] == 'multi' else 1
        self.n_num_features = 2
        self.n_classes = 3 if task == 'class' else 2
        self.target_values = {'class': [0, 1, 2], 'multilabel': [[0, 1], [0, 1]]}.get(task, [float] * self.n_targets)
        self.feature_names, self.target_names = ['a', 'b'], ['t%d' % i for i in range(self.n_targets)]
        self.sample_idx = 0

    def _prepare_for_use(self):
        pass

    def prepare_for_use(self):
        pass

    def next_sample(self, batch_size=1):
        ids = range(self.sample_idx, self.sample_idx + batch_size)
        self.sample_idx += batch_size
        self.current_sample_x, self.current_sample_y = rows(ids), labels(self.task, ids)
        return self.current_sample_x, self.current_sample_y

    def has_more_samples(self):
        return True

    def n_remaining_samples(self):
        return -1

    def restart(self):
        self.sample_idx = 0

    def get_data_info(self):
        return 'endless'

    def get_info(self):
        return 'endless'


class Recorder:
    """A model that only records; answers are scripted."""

    def __init__(self, idx, task, log):
        self.idx, self.task, self.log = idx, task, log

    def partial_fit(self, X, y=None, classes=None, sample_weight=None):
        self.log.append((self.idx, 'fit', [r[0] for r in np.asarray(X).tolist()], [r[1] for r in np.asarray(X).tolist()],
                         np.asarray(y).tolist(), None if classes is None else np.asarray(classes).tolist(),
                         None if sample_weight is None else np.asarray(sample_weight).tolist()))
        return self

    fit = partial_fit

    def predict(self, X):
        ids = [r[0] for r in np.asarray(X).tolist()]
        self.log.append((self.idx, 'pred', ids, [r[1] for r in np.asarray(X).tolist()]))
        p = np.array([guess(self.task, self.idx, int(i)) for i in ids])
        return p.astype(int) if self.task in ('class', 'multilabel') else p

    def get_info(self):
        return 'Recorder(%d)' % self.idx


@contextlib.contextmanager
def captured():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


METRICS = {
    'class': ['accuracy', 'kappa', 'kappa_t', 'kappa_m', 'true_vs_predicted', 'precision', 'recall', 'f1', 'gmean'],
    'multilabel': ['hamming_score', 'hamming_loss', 'exact_match', 'j_index'],
    'regression': ['mean_square_error', 'mean_absolute_error', 'true_vs_predicted'],
    'multitarget': ['average_mean_square_error', 'average_mean_absolute_error', 'average_root_mean_square_error'],
}
COLUMN = {'accuracy': 'acc', 'mean_square_error': 'mse', 'mean_absolute_error': 'mae', 'average_mean_square_error': 'amse',
          'average_mean_absolute_error': 'amae', 'average_root_mean_square_error': 'armse'}
SCORE = {'accuracy': 'accuracy_score', 'kappa': 'kappa_score', 'kappa_t': 'kappa_t_score', 'kappa_m': 'kappa_m_score',
         'precision': 'precision_score', 'recall': 'recall_score', 'f1': 'f1_score', 'gmean': 'geometric_mean_score',
         'hamming_score': 'hamming_score', 'hamming_loss': 'hamming_loss_score', 'exact_match': 'exact_match_score',
         'j_index': 'jaccard_score', 'mean_square_error': 'get_mean_square_error', 'mean_absolute_error': 'get_average_error',
         'average_mean_square_error': 'get_average_mean_square_error',
         'average_mean_absolute_error': 'get_average_absolute_error',
         'average_root_mean_square_error': 'get_average_root_mean_square_error'}
SUMMARY = {'accuracy': 'Accuracy', 'kappa': 'Kappa', 'kappa_t': 'Kappa T', 'kappa_m': 'Kappa M', 'precision': 'Precision',
           'recall': 'Recall', 'f1': 'F1 score', 'hamming_score': 'Hamming score', 'hamming_loss': 'Hamming loss',
           'exact_match': 'Exact matches', 'j_index': 'Jaccard index', 'mean_square_error': 'MSE',
           'mean_absolute_error': 'MAE', 'average_mean_square_error': 'AMSE', 'average_mean_absolute_error': 'AMAE',
           'average_root_mean_square_error': 'ARMSE'}


def ref_model(task, window=None):
    if task == 'class':
        return SingleLabelModel(2, window)
    if task == 'multilabel':
        return MultiLabelModel(window)
    return RegressionModel(window)


def ref_score(task, m, metric):
    if task == 'class':
        return m.scores()[SCORE[metric]]
    if task == 'multilabel':
        return m.scores()[SCORE[metric]] if m.hist else 0.0
    if metric == 'mean_square_error':
        return float(m.mse())
    if metric == 'mean_absolute_error':
        return float(m.mae())
    if metric == 'average_mean_square_error':
        return float(np.mean(m.mse()))
    if metric == 'average_mean_absolute_error':
        return float(np.mean(m.mae()))
    return float(np.mean(np.sqrt(m.mse())))
