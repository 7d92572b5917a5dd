SEEDS = [
dict(id='c43-restore-seed', property='C43', needs='an object with a seed saved after it has drawn random numbers, then restored and used on',
 what='restoring an object puts its random generator back to its seed',
 edits=[('core/base.py',
'''            self.__dict__.update(state)

    def _get_tags''','''            self.__dict__.update(state)
        if isinstance(state.get('random_state'), int) and '_random_state' in state:
            self._random_state = np.random.RandomState(state['random_state'])

    def _get_tags''')],
 demo='''
import pickle
from skmultiflow.data import SEAGenerator
g = SEAGenerator(random_state=3); g.next_sample(5)
h = pickle.loads(pickle.dumps(g))
expect(h.next_sample(3)[0].tolist(), g.next_sample(3)[0].tolist())
'''),
dict(id='c44-bound-width', property='C44', needs='a node and its alternate with very different observation counts and a difference near the bound',
 what='the significance bound is computed as if node and alternate had seen equally many samples',
 edits=[('trees/_nodes/hatc_nodes.py',
'''                fN = 1.0 / self._alternate_tree.error_width + 1.0 / self.error_width

                bound''','''                fN = 2.0 / max(self._alternate_tree.error_width, self.error_width)

                bound''')],
 demo='''
from skmultiflow.drift_detection.adwin import ADWIN
from skmultiflow.trees import HoeffdingAdaptiveTreeClassifier as T


class Mon:
    def __init__(self):
        self.win, self.flag = [], False

    def add(self, v):
        self.win.append(v); self.flag = False
        if len(self.win) >= 4 and abs(sum(self.win[-2:]) / 2 - sum(self.win[:-2]) / len(self.win[:-2])) >= .4:
            self.win, self.flag = self.win[-2:], True


def mon(o):
    return o.__dict__.setdefault('_mon', Mon())


ADWIN.add_element = lambda o, v: mon(o).add(v)
ADWIN.detected_change = lambda o: mon(o).flag
ADWIN.estimation = property(lambda o: .5 + .2 * (sum(mon(o).win) / len(mon(o).win) - .5) if mon(o).win else 0., lambda o, v: None)
ADWIN.width = property(lambda o: 150 * len(mon(o).win))
S = dict(A=((0., 0.), 0, 1.), B=((3., 1.), 1, 1.), D=((3., 0.), 0, 2.), E=((1., 0.), 2, 1.))
t = T(grace_period=2, split_confidence=.9, leaf_prediction='mc', bootstrap_sampling=False)
for ch in 'BDBDBDBDDEDDEBDBB':
    x, y, w = S[ch]
    t.partial_fit(np.array([x]), np.array([y]), classes=[0, 1, 2], sample_weight=np.array([w]))
expect((t.alternate_trees_cnt, t.switch_alternate_trees_cnt, t.pruned_alternate_trees_cnt), (2, 0, 0))
'''),
]
