""" Recording stand-ins for the user-supplied parts of an exploration, shared by several checks. """
import numpy as np

from aideme.active_learning import ActiveLearner
from aideme.utils import metric_logger


class Recorder(ActiveLearner):
    """
    Learner with random preferences, which writes down every call it receives. Scores and predictions are functions of the
    row only (a hash of it), so that a reset learner behaves like a new one.
    """
    def __init__(self, salt=1., batch=None, own_selection=False, log=None):
        self.salt = salt
        self.batch = batch
        self.own_selection = own_selection
        self.log = log if log is not None else []
        self.fits = 0

    def clear(self):
        self.fits = 0
        self.log.append(('clear',))

    def fit_data(self, data):
        X, y = data.training_set()
        ls = data.labeled_set
        self.log.append(('fit_data', np.array(X), np.array(y), dict(zip(np.asarray(ls.index).tolist(), np.asarray(ls.labels).tolist())),
                         dict(zip(np.asarray(ls.index).tolist(), np.asarray(ls.partial).tolist()))))
        self.fits += 1
        metric_logger.log_metric('fits', self.fits)
        if self.fits % 2:
            metric_logger.log_metric('odd_fit', self.fits)

    def _hash(self, X):
        return np.mod(np.abs(np.asarray(X, dtype=float)).sum(axis=1) * 7919.77 * self.salt, 1.)

    def predict_proba(self, X):
        return self._hash(X)

    def predict(self, X):
        return (self._hash(X) > 0.5).astype(float)

    def rank(self, X):
        return self._hash(X)

    def next_points_to_label(self, data, subsample=None):
        if self.own_selection:
            m = int(min(data.unlabeled_size, self.batch or 1))
            chosen = data.unlabeled.sample(m)
        else:
            chosen = super().next_points_to_label(data, subsample)
        self.log.append(('next', subsample, np.asarray(chosen.index).tolist(), np.asarray(data.unlabeled.index).tolist()))
        return chosen
