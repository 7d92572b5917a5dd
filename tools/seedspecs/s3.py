SEEDS=[
dict(id='c18-overlong', property='C18', needs='one insertion of more elements than the buffer holds',
 what='inserting more elements than the capacity does not report the displaced elements of the same insertion',
 edits=[('utils/data_structures.py',
'''            aux = []
            for element in element_list:
                if self.is_full():
''','''            aux = []
            if len(element_list) > self.max_size:
                # only the newest max_size elements can stay
                element_list = element_list[-self.max_size:]
            for element in element_list:
                if self.is_full():
''')],
 demo='''
from skmultiflow.utils import FastBuffer
b = FastBuffer(2)
expect(b.add_element([1, 2, 3]), [1])
'''),
dict(id='c20-pfp-classes', property='C20', needs='partial_fit_predict on a pipeline with two transformers, the second without a partial_fit_transform',
 what='partial_fit_predict of a step without partial_fit_transform refits the step on the raw input',
 edits=[('core/pipeline.py',
'''                Xt = transform.partial_fit(Xt, y).transform(Xt)

        if hasattr(self._final_estimator, "partial_fit_predict"):
''','''                Xt = transform.partial_fit(X, y).transform(Xt)

        if hasattr(self._final_estimator, "partial_fit_predict"):
''')],
 demo='''
from skmultiflow.core import Pipeline
class T:
    def partial_fit(self, X, y=None): self.m = X.mean(0); return self
    def transform(self, X): return X - self.m
    fit = partial_fit
class E:
    def partial_fit(self, X, y): self.X = X; return self
    def predict(self, X): return X[:, 0]
class A:
    def partial_fit_transform(self, X, y=None): return X * 2
    def transform(self, X): return X * 2
    def fit(self, X, y=None): return self
p = Pipeline([('a', A()), ('t', T()), ('e', E())])
X = np.array([[1.], [3.]])
expect(p.partial_fit_predict(X, np.array([0, 1])).tolist(), [-2., 2.])
'''),
dict(id='c22-tree-cache', property='C22', needs='equal first and last rows before and after the window moved (duplicates at both ends), with a query in between',
 what='the neighbour search keeps using the tree of an older window',
 edits=[('lazy/base_neighbors.py',
'''        tree = KDTree(self.data_window.features_buffer, self.leaf_size, metric=self.metric)
        dist, idx = tree.query(X=X,
''','''        # Building the tree is expensive: reuse it while the window did not change
        features = self.data_window.features_buffer
        state = (features.shape, features[0].tolist(), features[-1].tolist())
        if getattr(self, '_tree_state', None) != state:
            self._tree = KDTree(features, self.leaf_size, metric=self.metric)
            self._tree_state = state
        dist, idx = self._tree.query(X=X,
''')],
 demo='''
from skmultiflow.lazy import KNNClassifier
k = KNNClassifier(n_neighbors=1, max_window_size=4)
k.partial_fit(np.array([[0.], [0.], [5.], [9.]]), np.array([0, 0, 1, 2]))
k.predict(np.array([[0.]]))
k.partial_fit(np.array([[9.]]), np.array([2]))
expect(k.predict(np.array([[5.]])).tolist(), [1])
'''),
dict(id='c19-std-window', property='C19', needs='the standard scaler with a constant column inside its window that later changes by less than 1e-3',
 what='nearly constant columns are treated as constant',
 edits=[('transform/windowed_standard_scaler.py',
'''        if(std == 0.):
''','''        if(std <= 1e-3):
''')],
 demo='''
from skmultiflow.transform import WindowedStandardScaler
s = WindowedStandardScaler(4)
s.partial_fit(np.array([[1.], [1.0005]]))
expect(bool(abs(s.transform(np.array([[1.0005]]))[0, 0] - 1.) < 1e-3), True)
'''),
dict(id='c16-cut-limit', property='C16', needs='a change large enough to drop more than twelve buckets at one check',
 what='at most twelve buckets are dropped per check, so the window keeps elements from before a strong change',
 edits=[('drift_detection/adwin.py',
'''            bln_reduce_width = True
            while bln_reduce_width:
''','''            bln_reduce_width = True
            n_dropped = 0
            while bln_reduce_width and n_dropped < 12:
'''),
  ('drift_detection/adwin.py',
'''                                n0 -= self.delete_element()
''','''                                n0 -= self.delete_element()
                                n_dropped += 1
''')],
 demo='''
from skmultiflow.drift_detection import ADWIN
a = ADWIN(delta=.01)
hit = []
for v in [0.] * 2048 + [1.] * 256:
    a.add_element(v)
    if a.detected_change():
        hit.append(int(a.width))
# every check drops all buckets that contradict the rest
expect(hit[0] <= 200, True, hit)
'''),
dict(id='c23-nominal-weight', property='C23', needs='weighted samples whose nominal value is new for a class seen before',
 what='the first observation of a further nominal value of a class counts as weight one',
 edits=[('trees/_attribute_observer/nominal_attribute_class_observer.py',
'''                self._att_val_dist_per_class[class_val][att_val] = weight
''','''                self._att_val_dist_per_class[class_val][att_val] = 1.0
''')],
 demo='''
from skmultiflow.bayes import NaiveBayes
X = np.array([[0.], [1.], [0.], [2.]]); y = np.array([0, 0, 1, 1])
a, b = NaiveBayes(nominal_attributes=[0]), NaiveBayes(nominal_attributes=[0])
a.partial_fit(X, y, sample_weight=[3, 3, 3, 3])
b.partial_fit(np.repeat(X, 3, axis=0), np.repeat(y, 3))
expect(np.round(a.predict_proba([[1.]]), 9).tolist(), np.round(b.predict_proba([[1.]]), 9).tolist())
'''),
dict(id='c15-ph-forget', property='C15', needs='a forgetting factor noticeably below one, near the threshold',
 what='Page-Hinkley applies the forgetting factor to the new deviation as well',
 edits=[('drift_detection/page_hinkley.py',
'''        self.sum = max(0., self.alpha * self.sum + (x - self.x_mean - self.delta))
''','''        self.sum = self.alpha * max(0., self.sum + (x - self.x_mean - self.delta))
''')],
 demo='''
from skmultiflow.drift_detection import PageHinkley
d = PageHinkley(min_instances=2, delta=0., threshold=1.0, alpha=.5)
hit = []
for i, x in enumerate([0., 0., 2., 2.]):
    d.add_element(x); hit.append(bool(d.detected_change()))
expect(hit, [False, False, True, False])
'''),
]
