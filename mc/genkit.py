"""Generator configurations and a scripted random generator for the stream properties."""
import numpy as np

from skmultiflow.data import (AGRAWALGenerator, AnomalySineGenerator, ConceptDriftStream, HyperplaneGenerator, LEDGenerator,
                              LEDGeneratorDrift, MIXEDGenerator, MultilabelGenerator, RandomRBFGenerator, RandomRBFGeneratorDrift,
                              RandomTreeGenerator, RegressionGenerator, SEAGenerator, SineGenerator, STAGGERGenerator,
                              WaveformGenerator)


class ScriptedRandom(np.random.RandomState):
    """A RandomState whose draws are a given list of numbers in [0,1), then a fixed low-discrepancy
    continuation.  Every draw is logged as (kind, value), so a reference can consume the same answers."""

    def __init__(self, script=()):
        super().__init__(0)
        self.script = list(script)
        self.i = 0
        self.log = []

    def _u(self):
        if self.i < len(self.script):
            v = self.script[self.i]
        else:
            v = ((self.i - len(self.script) + 1) * 0.6180339887498949) % 1.0
        self.i += 1
        if self.i > 500000:
            raise RuntimeError('the code under test keeps drawing random numbers')
        return v

    def _many(self, f, shape):
        if shape is None or shape == ():
            return f()
        n = int(np.prod(shape))
        return np.array([f() for _ in range(n)]).reshape(shape)

    def _rand1(self):
        v = self._u()
        self.log.append(('rand', v))
        return v

    def rand(self, *shape):
        return self._many(self._rand1, shape)

    def random_sample(self, size=None):
        return self._many(self._rand1, size)

    random = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many(lambda: low + (high - low) * self._rand1(), size)

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if hi <= lo:
            raise ValueError('low >= high')

        def one():
            v = lo + int(self._u() * (hi - lo))
            self.log.append(('randint', v))
            return v
        return self._many(one, size)

    def _normal1(self):
        v = (self._u() - 0.5) * 4.0
        self.log.append(('normal', v))
        return v

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._many(lambda: loc + scale * self._normal1(), size)

    def randn(self, *shape):
        return self._many(self._normal1, shape)

    def standard_normal(self, size=None):
        return self._many(self._normal1, size)

    def __reduce__(self):
        return (ScriptedRandom, (self.script,))


def configs(tier):
    """(name, build) for every generator class and its options; build() makes a fresh seeded instance."""
    out = []
    seeds = (1, 7) if tier == 'quick' else (0, 1, 7, 12345)

    def add(name, fn):
        for s in seeds:
            out.append(('%s/seed%d' % (name, s), (lambda s=s, fn=fn: fn(s))))
    for f in range(10):
        add('agrawal%d' % f, lambda s, f=f: AGRAWALGenerator(classification_function=f, random_state=s))
    add('agrawal2-pert', lambda s: AGRAWALGenerator(classification_function=2, random_state=s, perturbation=0.3))
    add('agrawal1-bal', lambda s: AGRAWALGenerator(classification_function=1, random_state=s, balance_classes=True))
    add('agrawal3-bal-pert', lambda s: AGRAWALGenerator(classification_function=3, random_state=s, balance_classes=True, perturbation=0.1))
    for f in range(4):
        add('sea%d' % f, lambda s, f=f: SEAGenerator(classification_function=f, random_state=s))
        add('sine%d' % f, lambda s, f=f: SineGenerator(classification_function=f, random_state=s))
    add('sea-noise-bal', lambda s: SEAGenerator(random_state=s, balance_classes=True, noise_percentage=0.4))
    add('sine-noise-bal', lambda s: SineGenerator(random_state=s, balance_classes=True, has_noise=True))
    for f in range(3):
        add('stagger%d' % f, lambda s, f=f: STAGGERGenerator(classification_function=f, random_state=s))
    add('stagger-bal', lambda s: STAGGERGenerator(random_state=s, balance_classes=True))
    for f in range(2):
        add('mixed%d' % f, lambda s, f=f: MIXEDGenerator(classification_function=f, random_state=s))
    add('mixed-bal', lambda s: MIXEDGenerator(random_state=s, balance_classes=True))
    add('hyperplane', lambda s: HyperplaneGenerator(random_state=s, n_features=4))
    add('hyperplane-drift', lambda s: HyperplaneGenerator(random_state=s, n_features=4, n_drift_features=3, mag_change=0.3, noise_percentage=0.3, sigma_percentage=0.5))
    add('led', lambda s: LEDGenerator(random_state=s))
    add('led-noise', lambda s: LEDGenerator(random_state=s, noise_percentage=0.3, has_noise=True))
    add('led-drift0', lambda s: LEDGeneratorDrift(random_state=s, noise_percentage=0.2))
    add('led-drift4', lambda s: LEDGeneratorDrift(random_state=s, noise_percentage=0.2, has_noise=True, n_drift_features=4))
    add('led-drift7', lambda s: LEDGeneratorDrift(random_state=s, has_noise=True, n_drift_features=7))
    add('waveform', lambda s: WaveformGenerator(random_state=s))
    add('waveform-noise', lambda s: WaveformGenerator(random_state=s, has_noise=True))
    add('rbf', lambda s: RandomRBFGenerator(model_random_state=s, sample_random_state=s + 1, n_classes=3, n_features=4, n_centroids=5))
    add('rbf-drift', lambda s: RandomRBFGeneratorDrift(model_random_state=s, sample_random_state=s + 1, n_classes=3, n_features=4, n_centroids=5, change_speed=0.7, num_drift_centroids=3))
    add('rbf-drift-all', lambda s: RandomRBFGeneratorDrift(model_random_state=s, sample_random_state=s + 1, n_classes=2, n_features=3, n_centroids=4, change_speed=0.4, num_drift_centroids=50))
    add('tree', lambda s: RandomTreeGenerator(tree_random_state=s, sample_random_state=s + 1, n_classes=3, n_cat_features=2, n_num_features=2, n_categories_per_cat_feature=3, max_tree_depth=4, min_leaf_depth=2, fraction_leaves_per_level=0.3))
    add('tree-num', lambda s: RandomTreeGenerator(tree_random_state=s, sample_random_state=s + 1, n_cat_features=0, n_num_features=3))
    add('regression', lambda s: RegressionGenerator(n_samples=9, n_features=4, n_informative=2, random_state=s))
    add('regression-mt', lambda s: RegressionGenerator(n_samples=9, n_features=4, n_informative=2, n_targets=3, random_state=s))
    add('multilabel', lambda s: MultilabelGenerator(n_samples=9, n_features=4, n_targets=3, n_labels=2, random_state=s + 2))
    add('multilabel1', lambda s: MultilabelGenerator(n_samples=9, n_features=4, n_targets=1, n_labels=1, random_state=s))
    add('anomaly', lambda s: AnomalySineGenerator(n_samples=9, n_anomalies=3, random_state=s))
    add('anomaly-ctx', lambda s: AnomalySineGenerator(n_samples=9, n_anomalies=2, contextual=True, n_contextual=3, shift=2, noise=0.1, replace=False, random_state=s))
    add('concept-drift', lambda s: ConceptDriftStream(SEAGenerator(random_state=s), SEAGenerator(random_state=s + 5, classification_function=2), position=4, width=3, random_state=s + 9))
    add('concept-drift-default', lambda s: ConceptDriftStream(position=4, width=3, random_state=s))
    return out


FINITE = ('regression', 'regression-mt', 'multilabel', 'multilabel1', 'anomaly', 'anomaly-ctx')
