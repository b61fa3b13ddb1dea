"""A stand-in for the lightfm package (not installed here), so that the wrapper
around it can be driven: every fit_partial moves the embeddings by a rule that
depends on the interactions, the settings and the number of calls so far."""
import sys
import types

import numpy as np


class LightFM:
    log = []                                             # (event, detail) in order

    def __init__(self, no_components=10, k=5, n=10, learning_schedule="adagrad", loss="logistic", learning_rate=0.05, rho=0.95,
                 epsilon=1e-6, item_alpha=0.0, user_alpha=0.0, max_sampled=10, random_state=None):
        self.no_components, self.loss = no_components, loss
        self.item_alpha, self.user_alpha = item_alpha, user_alpha
        self.epoch = 0
        self.user_embeddings = self.item_embeddings = self.item_biases = self.user_biases = None
        LightFM.log.append(("new", dict(no_components=no_components, loss=loss, item_alpha=item_alpha, user_alpha=user_alpha)))

    def fit(self, *a, **k):
        self.epoch = 0
        return self.fit_partial(*a, **k)

    def fit_partial(self, interactions, user_features=None, item_features=None, sample_weight=None, epochs=1, num_threads=1, verbose=False):
        n, m = interactions.shape
        D = interactions.toarray()
        LightFM.log.append(("fit", dict(shape=(n, m), epochs=epochs, num_threads=num_threads, total=float(D.sum()), format=interactions.format)))
        for _ in range(epochs):
            self.epoch += 1
            r = np.random.RandomState(1000 + self.epoch)
            k = self.no_components
            self.user_embeddings = (r.normal(size=(n, k)) + D.sum(1)[:, None]).astype(np.float32)
            self.item_embeddings = (r.normal(size=(m, k)) - .1 * D.sum(0)[:, None]).astype(np.float32)
            self.item_biases = r.normal(size=m).astype(np.float32)
            self.user_biases = r.normal(size=n).astype(np.float32)
        return self


def install():
    mod = types.ModuleType("lightfm")
    LightFM.__module__ = "lightfm"
    LightFM.__qualname__ = "LightFM"
    mod.LightFM = LightFM
    mod.__version__ = "0"
    sys.modules["lightfm"] = mod
    return LightFM
