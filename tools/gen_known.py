#!/usr/bin/env python3
"""Writes known_findings.json (repaired and recorded defects)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """caee44b C07 one- and several-worker runs of truncated gamma CDFs disagreed for scalar thresholds
387ce34 C02 rank histograms failed (np.float) whenever ranks had to be marked missing
387ce34 C08 rank histograms failed (np.float) whenever ranks had to be marked missing
6ed5277 C08 rank histogram failed when every observation tied with a member
8fdf936 C04 collapsed members were stale after changing the ensemble axis or collapse function
fa2caa5 C19 spread and ranks of sampled ensembles reduced over the wrong axis when the member axis was moved
5b39626 C20 gamma CRPS was NaN for sharp forecasts (overflow in the beta function)
51436e6 C30 reliability index was not zero for flat histograms
a33bc89 C27 binned spread-skill sorted its input in place
91e9f34 C03 negative averaging axes pooled the wrong cells or failed in the special bootstrap
91e9f34 C12 negative averaging axes pooled the wrong cells or failed in the correlation
74882f9 C13 reliability failed when slices populated different bins
daf009b C15 bootstrap intervals were built from the wrong quantiles
e60cabe C23 a failing integration left the progress-bar settings changed and the memory map behind
184d165 C26 a crash while saving left a truncated file that every later run failed on
cc41eb2 C24 results saved for one averaging axis or bootstrap setting were returned for another
3833fb9 C24 different array thresholds shared one cache name
83e79e1 C31 kernel density probabilities could be negative or larger than one
671dd85 C21 the truncated gamma distribution ignored its bounds as support
671dd85 C06 the truncated gamma distribution ignored its bounds as support
b50f3f9 C06 sharp truncated gamma forecasts were cut at a finite upper bound
14522d2 C33 opening groups of chunk files without station locations failed
bf32165 C33 chunk file groups with only one of the two station locations were opened without the other
8da5fac C34 gamma hurdle forecasts of another shape than the observations were accepted and broadcast
b4af2cf C38 missing observations were scored as non-events by event-based metrics
b4af2cf C10 missing observations were given a Brier score
e884411 C38 a missing observation made every integrated result (mean, variance, CRPS) of hurdle forecasts missing
ff37af4 C02 bootstrapped correlations with missing values were missing or left out whole resamples
e5543dc C02 bootstrapped averages were missing when one resample had only missing values
610da22 C39 reliability_diagram ignored an explicit skip_nan without bootstrapping"""
out = []
for l in F.splitlines():
    c, p, w = l.split(' ', 2)
    out.append({'property': p, 'status': 'fixed', 'commit': c, 'what': w, 'line': 'fixed: property=%s %s %s' % (p, c, w)})
KNOWN = []
with open(R + '/known_findings.json', 'w') as f: json.dump(out + KNOWN, f, indent=1); f.write('\n')
