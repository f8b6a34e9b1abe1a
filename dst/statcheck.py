""" Distributional verdicts with a false-alarm probability that can be neglected. """
import math
import numpy as np
import scipy.stats
from dst.core import require

ALPHA = 1e-10

def uniform(us, kind, detail=''):
  """ us must look like independent uniforms on [0, 1] """
  us = np.asarray(us, dtype=float)
  p = float(scipy.stats.kstest(us, 'uniform').pvalue)
  require(p > ALPHA, kind, lambda: '{} KS p={} n={}'.format(detail, p, len(us)))
  zs = scipy.stats.norm.ppf(np.clip(us, 1e-12, 1. - 1e-12)) # (more sensitive to location and scale)
  tail = float(scipy.stats.chi2.cdf(np.sum(zs ** 2), len(us)))
  p = 2. * min(tail, float(scipy.stats.chi2.sf(np.sum(zs ** 2), len(us))), float(scipy.stats.norm.sf(abs(np.sum(zs)) / math.sqrt(len(us)))))
  require(p > ALPHA, kind, lambda: '{} scores p={} n={}'.format(detail, p, len(us)))

def counts(obs, probs, kind, detail=''):
  """ obs counts of outcomes with probabilities probs (zero entries must be zero) """
  obs, probs = np.asarray(obs, dtype=float), np.asarray(probs, dtype=float)
  require(np.all(obs[probs <= 0.] == 0.), kind, lambda: '{} impossible outcome'.format(detail))
  n = obs.sum()
  for o, q in zip(obs, probs):
    if q <= 0. or q >= 1.:
      continue
    p = scipy.stats.binomtest(int(o), int(n), float(q)).pvalue
    require(p > ALPHA, kind, lambda: '{} {} of {} at probability {}'.format(detail, o, n, q))
