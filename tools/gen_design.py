#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: fixed text, and per property what is asserted (HOW), within which bounds (from the harness module)."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HOW = {
 'C01': 'Every verifier kind is run on symbolic forecasts and observations; the result must equal, cell by cell, an average written out in the harness from the raw cells (index arithmetic only, no axis reductions), and its shape must be the kept axes in order.',
 'C02': 'Each cell carries a symbolic "missing" bit; the harness writes the mean over the present cells as an if-then-else sum, spread as the extreme of the present members, and correlation on the present pairs. Switching the setting after construction is part of the history. For bootstraps every draw of resamples is explored; the drawn samples are observed, so the check knows which resamples have values.',
 'C03': 'The aggregated result at each kept position is compared with the same metric of the slice verified alone (cut out by plain indexing in the harness).',
 'C04': 'All metrics of the same data given with the member axis first/last/positive/negative/inferred are compared; every setter history is compared with a fresh verifier of the final configuration.',
 'C05': 'Oracle: a count of members <= threshold, as a sum of if-then-else terms. Monotonicity with two symbolic thresholds.',
 'C06': 'Oracle: the distribution functions as uninterpreted monotone functions with their laws (range, symmetry, values at 0, ordering) applied to the parameters the definition prescribes; equality is by congruence, so a wrong parameter is visible.',
 'C07': 'One-worker and several-worker runs of the same symbolic inputs are compared term by term; process_map runs the real worker functions on deep copies.',
 'C08': 'Every draw of the tie-break generator is a symbolic integer within the range asked for; the rank must stay in the allowed interval, and for each rank in it the solver has to find a draw that produces it.',
 'C09': 'Oracle: the three definitions written as sums over members.',
 'C10': 'Oracle: (p - e)^2 with the strict event; bounds [0, 1] from the probability.',
 'C11': 'Oracle: bin averages computed in the harness from the cell-to-bin assignment; the identity and the ordering are decided as polynomial (in)equalities per outcome pattern.',
 'C12': 'Oracle: the covariance formula with square roots as defined symbols (s >= 0, s^2 = x); scaling, symmetry and affine laws separately.',
 'C13': 'Oracle: bin sums over the samples whose probability lies in the bin; conservation laws over counts.',
 'C14': 'Samples are forced into each order of variances in turn by path splitting (all orders are covered); group sizes, means and conservation laws are checked against index arithmetic.',
 'C15': 'Random draws are symbolic indices; the observed statistics must be those of the drawn resamples, and the reported bounds their quantiles. Separately the solver has to show that the extreme resamples are reachable (nothing is excluded from the draw).',
 'C16': 'Oracle: two if-then-else counts; missing values carry their bit.',
 'C17': 'roc_curve/auc are run concretely on one representative of each order type; the path condition is that order type, so the verdict holds for every score vector with it. Oracle: pair counting.',
 'C18': 'Oracle: CDF at the own observation; uniform draws are symbolic in [0, 1], one per cell.',
 'C19': 'Draws are functions of (cell parameters, symbolic uniform); layout and pairing follow by comparing terms; support from the laws of the inverse CDF.',
 'C20': 'Oracle: the published formulas over the same uninterpreted special functions; scaling law; finiteness over an interval-checked encoding of exp/log/gammaln ranges.',
 'C21': 'Oracle: gamma mass between bounds over the mass between the bounds; inversion and monotonicity as laws of the incomplete gamma pair.',
 'C22': 'CDF values are arbitrary non-decreasing symbols on the grid; ray tasks complete in a symbolic order; memory maps are byte arrays of the stated dtype.',
 'C23': 'A symbolic step number decides at which access the forecast raises; settings and directory are compared before and after; then an integration is run again.',
 'C24': 'Histories of calls on a saving and a non-saving verifier (files are real, in a scratch directory; contents are symbolic terms); file names built from symbolic numbers compare equal exactly when their texts would.',
 'C25': 'Operations are run with the interpreter\'s audit hooks recording (and refusing outside the scratch directory) each file effect; the history and directory forms are choices explored exhaustively, thresholds symbolic.',
 'C26': 'The number of the file operation at which the process dies, and how much of it happened, are symbolic choices; a later verifier must then agree with a verifier without saving.',
 'C27': 'Inputs are compared cell by cell with a copy taken before the call (and for shared memory), for every metric and utility; every ordered pair of metrics on one verifier against fresh ones.',
 'C28': 'Oracle: the published statistic; p-value through an uninterpreted Student-t CDF with its laws (symmetry, range).',
 'C29': 'The written text is parsed back; numbers are symbols whose text is unique to the value.',
 'C30': 'Oracle: the definition; permutations and factors symbolic.',
 'C31': 'exp/log as functions with their laws; the sum over the integration points is the real code; each cell is compared with the cell evaluated alone.',
 'C32': 'Ranks are symbolic integers (smallest plus gaps); strict order of the index coordinates over all pairs of stations.',
 'C33': 'A small model of xarray and netCDF4 (checked against the real libraries on real files in every run) with symbolic cell contents; every stated effect is compared cell by cell.',
 'C34': 'Shapes, axes, subsets of parameters and threshold forms are explored choices, cell values and probability thresholds symbolic; the call must raise exactly when the harness\'s own rule says that the inputs do not fit (both directions are asserted).',
 'C35': 'All settings are explored choices on symbolic values; compared with the definition cell by cell.',
 'C36': 'The same metric is run on the data and on the data reordered by an explored permutation; both are terms over the same symbols and must be equal for all values.',
 'C37': 'The metric of the transformed data must be the stated multiple of the metric of the data, as terms, for all values; powers of two as factors so that replays are free of rounding; a symbolic factor for averaged errors, spread and variance, a symbolic offset where the family of forecasts is closed under it.',
 'C38': 'Every pattern of missing observations is explored; the oracle is the same metric on the remaining cells only (cut out by index arithmetic).',
 'C39': 'The package is imported again under each set of variables; a call with arguments, with variables set late and through setters is compared with the same call configured the plain way, on the same symbols and the same draws (the random stream is rewound).',
}

TEXT = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
out = [TEXT]
for p in props:
    t = ast.parse(open(os.path.join(ROOT, 'props', p['id'].lower() + '.py')).read())
    g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE', 'ASSUMES'): g[n.targets[0].id] = ast.literal_eval(n.value)
    out += ['### %s %s' % (p['id'], p['title']), '', HOW[p['id']], '', '* bounds: ' + g['BOUNDS'], '* outside: ' + g['OUTSIDE']]
    if g.get('ASSUMES'): out += ['* assumed: ' + '; '.join(g['ASSUMES'])]
    out += ['']
out.append(TAIL)
k = json.load(open(os.path.join(ROOT, 'known_findings.json')))
out += ['## Defects found and repaired', '', 'All were shown failing on the real code by a replayed counterexample and repaired by a "fix:" commit; none is left open.', '']
out += ['* %s %s: %s' % (e['property'], e['commit'], e['what']) for e in k] + ['']
try:
    c = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
    out += ['## Planted bugs', '', 'Quick checks, each against the property the bug was written for (and other properties that also notice it, where tried).', '', '| bug | property | result | what it breaks |', '|---|---|---|---|']
    out += ['| %s | %s | %s | %s |' % (i, e['property'], e['result'], e['what']) for i, e in sorted(c.items())] + ['']
except FileNotFoundError: pass
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
