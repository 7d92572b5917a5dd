SEEDS=[
dict(id='c04-mixed-batch', property='C04', needs='balanced MIXED stream, an odd batch followed by another call',
 what='each call starts the class alternation anew',
 edits=[('data/mixed_generator.py','''        data = np.zeros([batch_size, self.n_features + 1])

        for j in range(batch_size):
''','''        data = np.zeros([batch_size, self.n_features + 1])
        if batch_size > 1:
            self.next_class_should_be_zero = False

        for j in range(batch_size):
''')],
 demo='''
from skmultiflow.data import MIXEDGenerator as G
s = G(random_state=1, balance_classes=True)
y = list(s.next_sample(3)[1]) + list(s.next_sample(3)[1])
expect([int(v) for v in y], [1, 0, 1, 0, 1, 0] if y[0] == 1 else [0, 1, 0, 1, 0, 1])
'''),
dict(id='c05-restart-drift', property='C05', needs='a restart before the drift position although the drift stream was already drawn from (wide transition)',
 what='the second source is not restarted when the stream is restarted before its drift position',
 edits=[('data/concept_drift_stream.py','''        self.sample_idx = 0
        self.current_sample_x = None
        self.current_sample_y = None
        self.stream.restart()
        self.drift_stream.restart()
''','''        if self.sample_idx >= self.position:
            self.drift_stream.restart()
        self.sample_idx = 0
        self.current_sample_x = None
        self.current_sample_y = None
        self.stream.restart()
''')],
 demo='''
from skmultiflow.data import ConceptDriftStream, SEAGenerator
s = ConceptDriftStream(SEAGenerator(random_state=1), SEAGenerator(random_state=2, classification_function=1), position=20, width=60, random_state=5)
a = s.next_sample(12)[0]; s.restart(); b = s.next_sample(12)[0]
expect(b, a)
'''),
dict(id='c06-sort-skip', property='C06', needs='a batch of delayed samples whose availability times are not in order among themselves',
 what='the queue is left unsorted when the batch starts later than everything queued, so labels leave in the wrong order at the end',
 edits=[('data/time_manager.py','''        self.queue = self.queue.append(frame)
        # sort queue
        self._sort_queue()
''','''        in_order = self.queue.shape[0] == 0 or \\
            frame['available_time'].iloc[0] >= self.queue['available_time'].iloc[-1]
        self.queue = self.queue.append(frame)
        if in_order and frame.shape[0] > 1:
            # already in order: appending keeps the queue sorted
            self.queue = self.queue.reset_index(drop=True)
        else:
            # sort queue
            self._sort_queue()
''')],
 demo='''
from skmultiflow.data.time_manager import TimeManager
t = TimeManager(0)
t.update_queue(np.array([[1.], [2.]]), np.array([1, 2]), np.array([[0], [0]]), np.array([1., 1.]), np.array([0, 0]), np.array([5, 3]))
expect(t.next_sample(1)[1].tolist(), [2])
'''),
dict(id='c07-pretrain-limit', property='C07', needs='pre-training and a max_samples that is not pretrain_size plus a multiple of the batch size',
 what='the last batch is cut short to fit the sample limit, but counted and skipped in full',
 edits=[('evaluation/evaluate_prequential.py','''                X, y = self.stream.next_sample(self.batch_size)

                if X is not None''','''                X, y = self.stream.next_sample(self.batch_size)
                if self.pretrain_size > 0 and \\
                        self.global_sample_count + len(X) > self.max_samples:
                    # never exceed the requested number of samples
                    X, y = X[:self.max_samples - self.global_sample_count], \\
                        y[:self.max_samples - self.global_sample_count]

                if X is not None''')],
 demo='''
import io, contextlib
from skmultiflow.data import DataStream
from skmultiflow.evaluation import EvaluatePrequential
class M:
    seen = 0
    def partial_fit(self, X, y, classes=None): self.seen += len(X); return self
    def predict(self, X): return np.zeros(len(X), dtype=int)
    def get_info(self): return 'M'
    def reset(self): pass
    def predict_proba(self, X): pass
    _estimator_type = 'classifier'
m = M()
X = np.arange(200.).reshape(100, 2); y = np.arange(100) % 2
e = EvaluatePrequential(pretrain_size=10, batch_size=4, max_samples=32, n_wait=8, metrics=['accuracy'])
with contextlib.redirect_stdout(io.StringIO()):
    e.evaluate(DataStream(X, y), m)
expect(m.seen, 34)
'''),
dict(id='c10-flush-line', property='C10', needs='an output file long enough to overflow the write buffer',
 what='the line that overflows the write buffer is lost',
 edits=[('evaluation/base_evaluator.py','''                self._flush_file_buffer()
            self._file_buffer += line
            self._file_buffer_size += sys.getsizeof(line)
''','''                self._flush_file_buffer()
            else:
                self._file_buffer += line
                self._file_buffer_size += sys.getsizeof(line)
''')],
 demo='''
import io, contextlib, tempfile, os
from skmultiflow.data import SEAGenerator
from skmultiflow.bayes import NaiveBayes
from skmultiflow.evaluation import EvaluatePrequential
d = tempfile.mkdtemp(prefix='demo')
f = os.path.join(d, 'o.csv')
with contextlib.redirect_stdout(io.StringIO()):
    EvaluatePrequential(pretrain_size=1, max_samples=401, n_wait=1, metrics=['accuracy'], output_file=f).evaluate(SEAGenerator(random_state=1), NaiveBayes())
n = len([l for l in open(f) if l[0].isdigit()])
os.remove(f); os.rmdir(d)
expect(n, 400)
'''),
]
