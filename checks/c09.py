"""
C09: the noise injector is called as a function and inside explorations; its output is compared label by label with its input, and flip
counts over many draws are compared with the binomial law (bounds of 6.5 standard deviations, so that a correct injector never fails).
"""
import numpy as np

from aideme.explore import LabeledSet, PoolBasedExploration
from aideme.initial_sampling import stratified_sampler
from aideme.utils.convergence import max_iter_reached
from aideme.utils.noise import random_noise_injector
from harness.core import workload
from harness.stubs import Recorder
from harness import gen

RULE = ('A case is one set of labels passed through the injector, possibly many times; non-trivial when not empty; signature: labels, partial labels, noise level and flips.')
QUICK = 6  # times the cases of the quick tier
REQUIRED = {'injections': 3000, 'flips': 2000, 'turned_positive': 500, 'turned_negative': 500, 'with_partial_labels': 1000, 'noise_zero': 200, 'noise_one': 200, 'skipped': 300, 'statistics': 40, 'explorations': 50, 'expected_errors': 150}
ASSUMPTIONS = ['a label which turns negative had all partial labels positive']


def make(rng, n, k):
    y = gen.binary_labels(rng, n)
    P = gen.partial_labels(rng, y, k) if k > 1 else (None if rng.rand() < 0.7 else y.reshape(-1, 1).copy())
    if k > 1 and rng.rand() < 0.15:  # labels which are not the conjunction of the partial ones
        P[y == 0] = rng.randint(2, size=(int((y == 0).sum()), k))
        P[y == 1] = np.where(rng.rand(int((y == 1).sum()), 1) < 0.5, P[y == 1], rng.randint(2, size=(int((y == 1).sum()), k)))
    if rng.rand() < 0.3:
        y = y.astype(int)
        P = None if P is None else P.astype(int)
    return LabeledSet(y, P, gen.index_values(rng, n))


def compare(ctx, given, noisy, what):
    """ :return: mask of the flipped labels """
    ctx.same(noisy.index, given.index, '{}: points', what)
    y, z = np.asarray(given.labels, dtype=float), np.asarray(noisy.labels, dtype=float)
    ctx.check(z.shape == y.shape and bool(np.all((z == 0) | (z == 1))), '{}: noisy labels {}', what, z)
    ctx.check(noisy.partial.shape == given.partial.shape, '{}: partial labels of shape {} instead of {}', what, noisy.partial.shape, given.partial.shape)
    P, Q = np.asarray(given.partial, dtype=float), np.asarray(noisy.partial, dtype=float)
    for i in range(len(y)):
        if z[i] == y[i]:
            ctx.check(bool(np.all(P[i] == Q[i])), '{}: unflipped label {} has partial labels {} instead of {}', what, y[i], Q[i], P[i])
        elif z[i] == 1:
            ctx.check(bool(np.all(Q[i] == 1)), '{}: label turned positive has partial labels {}', what, Q[i])
            ctx.event('turned_positive')
        else:
            ctx.check(P[i].min() == 0 or int((P[i] != Q[i]).sum()) == 1 and int((Q[i] == 0).sum()) == 1, '{}: label turned negative has partial labels {} after {}', what, Q[i], P[i])
            ctx.event('turned_negative')
    if P.shape[1] > 1:
        ctx.event('with_partial_labels')
    ctx.event('injections')
    ctx.event('flips', int((z != y).sum()))
    return z != y


@workload(quick=1200, thorough=30000)
def injections(ctx, rng):
    n, k = int(rng.choice([0, 1, 2, 5, 30])), int(rng.randint(1, 5))
    noise = float(rng.choice([0., 1., 0.1, 0.5, 0.9]))
    skip = int(rng.choice([0, 0, 1, 3, 10]))
    ls = make(rng, n, k) if n else LabeledSet([])
    injector = random_noise_injector(noise, skip) if skip or rng.rand() < 0.5 else random_noise_injector(noise)
    before = gen.snapshot(ls.labels, ls.partial, ls.index)
    for it in gen.random_subset(rng, range(1, 15), 6):
        noisy = injector(it, ls)
        ctx.check(gen.unchanged([ls.labels, ls.partial, ls.index], before), 'the noise-free labels were modified')
        flipped = compare(ctx, ls, noisy, 'noise {} at iteration {}, skipping {}'.format(noise, it, skip))
        if it <= skip:
            ctx.check(not flipped.any(), 'noise was added at iteration {} although {} iterations are skipped', it, skip)
            ctx.event('skipped')
        elif noise == 0:
            ctx.check(not flipped.any(), 'labels were flipped without noise')
            ctx.event('noise_zero')
        elif noise == 1:
            ctx.check(bool(flipped.all()), 'labels were kept with noise 1')
            ctx.event('noise_one')
    if n:
        ctx.case(n, k, noise, skip, tuple(flipped.tolist()))
    ctx.sample(n=n, subspaces=k, noise=noise, skip=skip)

    if rng.rand() < 0.3:
        bad = float(rng.choice([-0.1, 1.1, -5., 2., float(np.nextafter(1, 2)), -1e-300]))
        ctx.raises(ValueError, lambda: random_noise_injector(bad), 'noise {} was accepted', bad)
        bad_skip = [-1, -5, 0.5, 1.5][rng.randint(4)]
        ctx.raises(ValueError, lambda: random_noise_injector(noise, bad_skip), 'skip_initial {} was accepted', bad_skip)


@workload(quick=80, thorough=800)
def statistics(ctx, rng):
    n, k, draws = 12, int(rng.randint(2, 5)), 600
    noise = float(rng.choice([0.05, 0.2, 0.5, 0.8]))
    y = np.r_[np.ones(6), np.zeros(6)][rng.permutation(n)]
    ls = LabeledSet(y, gen.partial_labels(rng, y, k), gen.index_values(rng, n))
    injector = random_noise_injector(noise)
    F = np.zeros((draws, n))
    lost, pairs, same = np.zeros(k), 0, 0
    for t in range(draws):
        noisy = injector(1 + t, ls)
        F[t] = noisy.labels != y
        gone = (y == 1) & (np.asarray(noisy.labels) == 0)
        gaps = np.asarray(noisy.partial)[gone] == 0
        lost += gaps.sum(axis=0)
        if len(gaps) > 1:  # one pair per draw: pairs are independent
            pairs += 1
            same += int(bool(np.all(gaps[0] == gaps[-1])))
    bound = 6.5

    def near(count, total, p, what):
        sd = np.sqrt(total * p * (1 - p))
        ctx.check(abs(count - total * p) <= bound * sd + 1, '{}: {} of {} instead of about {:.1f}', what, count, total, total * p)
    near(F.sum(), F.size, noise, 'labels flipped with noise {}'.format(noise))
    near(F[:, y == 1].sum(), F[:, y == 1].size, noise, 'positive labels flipped with noise {}'.format(noise))
    near(F[:, y == 0].sum(), F[:, y == 0].size, noise, 'negative labels flipped with noise {}'.format(noise))
    for j in range(n):
        near(F[:, j].sum(), draws, noise, 'flips at position {} with noise {}'.format(j, noise))
    # labels are independent of each other, and of the previous draw
    for a, b in [gen.random_subset(rng, range(n), 2) for _ in range(10)]:
        near((F[:, a] * F[:, b]).sum(), draws, noise ** 2, 'joint flips of positions {} and {} with noise {}'.format(a, b, noise))
    near((F[1:, 0] * F[:-1, 0]).sum(), draws - 1, noise ** 2 * 1.0, 'flips in consecutive draws with noise {}'.format(noise)) if noise < 0.5 else None
    # the lost partial label is any of them, whatever the other points of the batch lose
    for j in range(k):
        near(lost[j], lost.sum(), 1 / k, 'partial labels lost in subspace {} of {}'.format(j, k)) if lost.sum() else None
    near(same, pairs, 1 / k, 'labels turned negative together which lose the same partial label') if pairs else None
    ctx.event('statistics')
    ctx.case('statistics', noise, k, int(F.sum()))


@workload(quick=100, thorough=2000)
def explorations(ctx, rng):
    n, k = int(rng.randint(10, 40)), int(rng.randint(1, 4))
    X = gen.identified_data(rng, n, 2)
    y = gen.binary_labels(rng, n, both=True)
    P = gen.partial_labels(rng, y, k) if k > 1 else None
    idx = gen.index_values(rng, n)
    ls = LabeledSet(y, P, idx)
    before = gen.snapshot(ls.labels, ls.partial, ls.index)
    noise = float(rng.choice([0., 0.4, 1.]))
    skip = int(rng.choice([0, 2, 5]))
    truth = dict(zip(idx.tolist(), y))
    partial = dict(zip(idx.tolist(), ls.partial.tolist()))
    learner = Recorder(salt=rng.rand() + 0.5, own_selection=True, batch=int(rng.randint(1, 4)))
    use_initial = rng.rand() < 0.6
    expl = PoolBasedExploration(initial_sampler=stratified_sampler(ls) if use_initial else None, convergence_criteria=max_iter_reached(int(rng.randint(4, 12))), noise_injector=random_noise_injector(noise, skip))
    run = expl.run(X, ls, learner, seeds=int(rng.randint(1000)), return_generator=False)[0]
    fits = [e for e in learner.log if e[0] == 'fit_data']
    shown = {}
    for j, m in enumerate(run):
        new = m['labeled_indexes']
        ctx.check(m['labels'] == [truth[i] for i in new] and m['partial_labels'] == [partial[i] for i in new], 'iteration {}: the noise-free labels reported are not those of the user', j)
        if 'noisy_labels' in m:
            given = LabeledSet(np.array(m['labels']), np.array(m['partial_labels']), np.array(new))
            noisy = LabeledSet(np.array(m['noisy_labels']), np.array(m['noisy_partial_labels']), np.array(new))
            flipped = compare(ctx, given, noisy, 'iteration {}'.format(j))
            ctx.check(not flipped.any() or (noise > 0 and j >= skip), 'iteration {} has noise {} although {} are skipped', j, noise, skip)
            if noise == 1 and j > skip:
                ctx.check(bool(flipped.all()), 'iteration {} has unflipped labels with noise 1', j)
            shown.update(zip(new, m['noisy_labels']))
        else:
            ctx.check(m['phase'] == 'initial_sampling', 'iteration {} of the exploration phase has no noisy labels', j)
            shown.update(zip(new, m['labels']))
    ctx.check(fits[-1][3] == shown, 'the model was trained on {} instead of {}', fits[-1][3], shown)
    ctx.check(gen.unchanged([ls.labels, ls.partial, ls.index], before), "the user's labels were modified by the exploration")
    ctx.event('explorations')
    ctx.case('exploration', noise, skip, tuple(shown.items()))
