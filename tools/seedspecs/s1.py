SEEDS=[
dict(id='c01-restart-tail', property='C01', needs='a batch request running past the end of the table by two or more, from mid-stream',
 what='an over-long last batch re-delivers earlier records',
 edits=[('data/data_stream.py','''        self.sample_idx += batch_size
        try:

            self.current_sample_x = self.X[self.sample_idx - batch_size:self.sample_idx, :]
            self.current_sample_y = self.y[self.sample_idx - batch_size:self.sample_idx, :]
''','''        start = self.sample_idx
        if batch_size > 1 and start + batch_size > self.n_samples + 1:
            # the request cannot be fully served: align the window to the end of the table
            start = max(self.n_samples - batch_size + 1, 0) if start < self.n_samples else start
        self.sample_idx += batch_size
        try:

            self.current_sample_x = self.X[start:start + batch_size, :]
            self.current_sample_y = self.y[start:start + batch_size, :]
''')],
 demo='''
from skmultiflow.data import DataStream
X = np.arange(10.).reshape(5, 2); y = np.array([0, 1, 0, 1, 1])
s = DataStream(X, y)
s.next_sample(3)
a, b = s.next_sample(4)
expect(a, X[3:]); expect(b, y[3:])
'''),
dict(id='c11-majority-tie', property='C11', needs='three or more classes where a tie for the majority arises between classes 0<i<j',
 what='kappa-M compares with the wrong majority class on ties',
 edits=[('metrics/_classification_performance_evaluator.pyx','''            if sum_value > max_prob:
                max_prob = sum_value
                majority_idx = i
        return majority_idx
''','''            if sum_value > max_prob or (sum_value == max_prob and majority_idx > 0):
                max_prob = sum_value
                majority_idx = i
        return majority_idx
''')],
 demo='''
from skmultiflow.metrics import ClassificationPerformanceEvaluator
m = ClassificationPerformanceEvaluator()
for t in (1, 2):
    m.add_result(t, t)
expect(m.majority_class(), 1)
'''),
dict(id='c12-mt-window-reset', property='C12', needs='a windowed multi-target measurement that is reset and then filled past its window again',
 what='after reset the window of the multi-target regression measurement is one entry too long',
 edits=[('metrics/measure_collection.py','''        self.total_square_error_correction = FastBuffer(self.window_size)
        self.average_error_correction = FastBuffer(self.window_size)

    def add_result(self, y, prediction):
        """ Use the true value and the prediction to update the statistics.
''','''        self.total_square_error_correction.clear_queue()
        self.average_error_correction = FastBuffer(self.window_size + 1)

    def add_result(self, y, prediction):
        """ Use the true value and the prediction to update the statistics.
''')],
 demo='''
from skmultiflow.metrics.measure_collection import WindowMultiTargetRegressionMeasurements as W
def fill(m):
    for i in range(5):
        m.add_result(np.array([1., 2.]), np.array([1. + i, 2. - i]))
    return m.get_average_absolute_error()
m = W(window_size=2); fill(m); m.reset()
expect(fill(m), fill(W(window_size=2)))
'''),
dict(id='c18-window-zero', property='C18', needs='delete_oldest_sample on a full window followed by additions',
 what='the sliding window pairs features with the wrong targets after a removal',
 edits=[('utils/data_structures.py','''        if self.size > 0:
            self._X_queue = self._X_queue[1:, :]
            self._y_queue = self._y_queue[1:, :]
''','''        if self.size > 0:
            self._X_queue = self._X_queue[1:, :]
            self._y_queue = self._y_queue[1:, :] if self.size < self.window_size - 1 else self._y_queue[:-1, :]
''')],
 demo='''
from skmultiflow.utils.data_structures import SlidingWindow
w = SlidingWindow(window_size=3)
for i in range(3):
    w.add_sample(np.array([[i, i]]), np.array([[i]]))
w.delete_oldest_sample()
expect(sorted(int(v) for v in np.asarray(w.targets_buffer).ravel()), [1, 2])
'''),
dict(id='c14-ml-growth', property='C14', needs='a label index more than one past the present table of a multi-label table that already holds counts',
 what='growing the multi-label table loses the counts of the last label',
 edits=[('metrics/_confusion_matrix.pyx','''        if label > self._max_label:
            self._max_label = label
''','''        if label > self._max_label:
            if label > self._max_label + 1:
                self.data[self._max_label] = 0.0
            self._max_label = label
''')],
 demo='''
from skmultiflow.metrics._confusion_matrix import MultiLabelConfusionMatrix as M
m = M(2); m[(1, 1, 1)] = 1.0; m[(3, 0, 1)] = 1.0
expect(float(m[(1, 1, 1)]), 1.0)
'''),
]
