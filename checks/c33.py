"""
C33: command line explorations answered by a script, well formed and malformed, against what learner, callbacks and criteria receive.
"""
import builtins
import contextlib
import io
import re
import numpy as np
from aideme.active_learning import RandomSampler, SimpleMargin
from aideme.explore.command_line_explore import CommandLineExploration
from aideme.initial_sampling import fixed_sampler, random_sampler
from aideme.utils import max_iter_reached, metric_logger, metric_reached_threshold
from sklearn.naive_bayes import GaussianNB
from harness.core import workload
from harness.stubs import Recorder

RULE = 'A case is one session; non-trivial when a malformed answer was given; signature: learner, sampler, batch, criteria, kinds of malformed answers, reason of the end.'
QUICK = 5  # times the cases of the quick tier
REQUIRED = {'all_labeled': 750, 'callback_calls': 4800, 'continue_prompts': 10000, 'criterion_held': 1000, 'declined': 210, 'label_prompts': 10000, 'labels_typed': 10000, 'malformed_continue': 4000, 'malformed_labels': 4000, 'sessions': 1800, 'trainings': 3000}
ASSUMPTIONS = ['answers are read through the built-in input function, everything shown is printed or part of its prompt',
               'a learner which needs training is used with an initial sampler']

NUMBER = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)')


class TooMany(BaseException):
    pass


class User:
    """ answers the prompts of one session; knows from the calls of the learner and the sampler which question is being asked """
    def __init__(self, ctx, rng, X, patience, wrong):
        self.ctx, self.rng, self.X = ctx, rng, X
        self.patience, self.wrong = patience, wrong
        self.pending = None      # indexes proposed and not yet labeled
        self.expected = {}       # labels given so far
        self.batches = []
        self.shown = io.StringIO()
        self.declined = False
        self.iterations = 0
        self.trained = 0         # trainings since the last points were proposed
        self.last_rejected = None
        self.kinds = set()
        self.questions = 0
        self.stop = lambda: False

    def propose(self, index):
        self.ctx.check(self.pending is None, 'new points {} are proposed before {} were labeled', index, self.pending)
        self.pending = list(index)
        self.trained = 0

    def input(self, prompt=''):
        self.questions += 1
        if self.questions > 2000:
            raise TooMany()
        self.shown.write(str(prompt))
        text = self.shown.getvalue()
        if self.pending is None:
            return self.ask_continue()
        return self.ask_labels(text)

    def ask_continue(self):
        ctx, rng = self.ctx, self.rng
        ctx.check(not self.declined, 'the session asks again after the user declined')
        ctx.check(len(self.expected) < len(self.X), 'the session goes on although all points are labeled')
        ctx.check(not self.stop(), 'the session goes on after {} iterations and {} labels although a criterion holds', self.iterations, len(self.expected))
        ctx.event('continue_prompts')
        if rng.rand() < self.wrong:
            answer = ['', 'Y', 'N', 'yes', 'no', ' y', 'y ', 'yn', 'ny', '1', '0', 'n\t', 'yy'][rng.randint(13)]
            self.kinds.add('c')
            ctx.event('malformed_continue')
            return answer
        if self.iterations >= self.patience:
            self.declined = True
            return 'n'
        return 'y'

    def ask_labels(self, text):
        ctx, rng = self.ctx, self.rng
        rows = self.X[self.pending]
        numbers = [float(s) for s in NUMBER.findall(text)]
        flat = [float(v) for v in rows.ravel()]
        k = len(flat)
        ctx.check(any(numbers[i:i + k] == flat for i in range(len(numbers) - k + 1)), 'points {} are not shown to the user: {!r}', rows.tolist(), text[-300:])
        self.shown.seek(0)
        self.shown.truncate()
        ctx.event('label_prompts')
        n = len(self.pending)
        labels = rng.randint(0, 2, size=n).tolist()
        if rng.rand() < self.wrong:
            kind = rng.randint(5)
            if kind == 0:
                answer = ' '.join(map(str, labels)) + ['a', ',', '\t', '.', '-', ' 2', 'n', '\n', '\u0661', '\uff11', '_'][rng.randint(11)]
            elif kind == 1:
                answer = ' '.join(map(str, labels[:-1])) if rng.rand() < 0.5 else ' '.join(map(str, labels + [rng.randint(2)]))
            elif kind == 2:
                labels[rng.randint(n)] = ['00', '01', '10', '11', '001', '1010'][rng.randint(6)]
                answer = ' '.join(map(str, labels))
            elif kind == 3:
                answer = ['', ' ', '   ', 'y', 'n', '0,1', '[0]', 'True', '2', '-1', '1.0', '0.0', '+1', '1e0', '0x1'][rng.randint(15)]
            else:
                answer = ''.join(map(str, labels)) if n > 1 else ['11', '00', '10 ', ' 01'][rng.randint(4)]
            self.kinds.add('l{}'.format(kind))
            ctx.event('malformed_labels')
            return answer
        self.expected.update(zip(self.pending, labels))
        self.batches.append((list(self.pending), labels))
        self.pending = None
        self.iterations += 1
        ctx.event('labels_typed', n)
        if rng.rand() < 0.2:
            return '  ' + '   '.join(map(str, labels)) + ' '
        return ' '.join(map(str, labels))


def watched(user, learner, kind):
    """ tells the user which points the learner selects """
    select = learner.next_points_to_label

    def next_points_to_label(data, subsample=None):
        chosen = select(data, subsample)
        user.propose(np.asarray(chosen.index).tolist())
        return chosen
    learner.next_points_to_label = next_points_to_label
    return learner


def session(ctx, rng, learner=None, kind=None):
    n, d = int(rng.randint(2, 16)), int(rng.randint(1, 4))
    X = np.round(rng.randn(n, d) * 10. ** rng.randint(-2, 4, size=d), 6)
    if rng.rand() < 0.2:
        X = rng.permutation(n * d).reshape(n, d) - 3
    if rng.rand() < 0.2:
        X = np.asfortranarray(X)
    original = X.copy()
    user = User(ctx, rng, original, int(rng.randint(0, 20)) if rng.rand() < 0.6 else 10 ** 6, float(rng.choice([0, 0.3, 0.6])))

    kind = ['recorder', 'recorder', 'margin', 'random'][rng.randint(4)]
    batch = int(rng.randint(1, 5))
    learner = {'recorder': lambda: Recorder(salt=float(rng.rand() + 0.5), batch=batch, own_selection=bool(rng.rand() < 0.5)),
               'margin': lambda: SimpleMargin(C=10.), 'random': lambda: RandomSampler(GaussianNB(), batch_size=batch)}[kind]()
    watched(user, learner, kind)

    sampler, sampling = None, 'none'
    if kind != 'recorder' or rng.rand() < 0.4:
        inner = random_sampler(int(rng.randint(1, min(n, 4) + 1)))
        fixed = [int(i) for i in rng.permutation(n)[:rng.randint(1, 4)]]
        first = fixed_sampler(fixed) if rng.rand() < 0.4 else inner
        calls = []

        def sampler(data):
            f = first if not calls else inner
            calls.append(1)
            index = f(data)
            user.propose(np.asarray(index).tolist())
            return index
        sampling = 'sampler'

    skip = int(rng.randint(1, 4))
    seen = {'callbacks': []}

    def score(data, active_learner):
        ctx.check(active_learner is learner, 'a callback received another learner')
        got = dict(zip(np.asarray(data.labeled_set.index).tolist(), np.asarray(data.labeled_set.labels).tolist()))
        ctx.check(got == user.expected, 'a callback sees labels {} instead of {}', got, user.expected)
        seen['callbacks'].append(user.iterations)
        return {'score': len(got) / n}

    criteria, conditions, names = [], [], []
    if rng.rand() < 0.3:
        k = int(rng.randint(0, 8))
        criteria.append(max_iter_reached(k))
        conditions.append(lambda: user.iterations > k)
        names.append('iter')
    if rng.rand() < 0.3:
        m = int(rng.randint(1, n + 1))
        criteria.append(lambda manager, metrics: manager.data.labeled_size >= m)
        conditions.append(lambda: len(user.expected) >= m)
        names.append('size')
    if rng.rand() < 0.4:
        threshold = float(rng.uniform(0.1, 1))
        criteria.append(metric_reached_threshold('score', threshold))
        conditions.append(lambda: user.iterations > 0 and (user.iterations - 1) % skip == 0 and len(user.expected) / n >= threshold)
        names.append('score')

    # the number of trainings is a metric logged by the learner itself, summed over the trainings of one iteration
    if rng.rand() < 0.5:
        train = learner.fit_data

        def fit_data(data):
            train(data)
            user.trained += 1
            metric_logger.log_metric('trained', 1, on_duplicates='sum')
        learner.fit_data = fit_data

    snapshots = []

    def watch(manager, metrics):
        got = dict(zip(np.asarray(manager.data.labeled_set.index).tolist(), np.asarray(manager.data.labeled_set.labels).tolist()))
        ctx.check(got == user.expected, 'after answers {} the session stores {}', user.expected, got)
        ctx.check(manager.iters == user.iterations, 'the session counts {} iterations after {} answers', manager.iters, user.iterations)
        wanted = {'score': len(got) / n} if seen['callbacks'][-1:] == [user.iterations] else {}
        if user.trained:
            wanted['trained'] = user.trained
        shown = {name: metrics[name] for name in ('score', 'trained') if name in metrics}
        ctx.check(shown == wanted, 'after iteration {} the criteria see the metrics {} instead of {}', user.iterations, shown, wanted)
        ctx.event('metrics_seen', len(wanted))
        snapshots.append(len(got))
        return False
    criteria.insert(int(rng.randint(len(criteria) + 1)), watch)
    # a criterion which holds is not asked about others: the watcher must come first to see every state
    criteria.sort(key=lambda f: f is not watch)
    user.stop = lambda: any(c() for c in conditions)

    for name in ('score', 'fits', 'trained'):
        if rng.rand() < 0.5:
            metric_logger.log_metric(name, 100.)  # left over from an earlier exploration

    explore = CommandLineExploration(initial_sampler=sampler, subsampling=[None, None, 1, 3][rng.randint(4)], callback=score if rng.rand() < 0.5 else [score],
                                     callback_skip=skip, convergence_criteria=criteria)
    np.random.seed(rng.randint(2 ** 31))
    previous = builtins.input
    builtins.input = user.input
    try:
        with contextlib.redirect_stdout(user.shown):
            explore.run(X, learner)
    except TooMany:
        ctx.fail('the session never ends')
    finally:
        builtins.input = previous
    all_labeled = len(user.expected) == n
    ctx.check(user.pending is None, 'the session ended before the proposed points {} were labeled', user.pending)
    ctx.check(user.declined or all_labeled or user.stop(), 'the session ended after {} iterations and {} of {} labels without a reason', user.iterations, len(user.expected), n)
    ctx.check(snapshots and (snapshots[-1] == len(user.expected)), 'the last labels were not stored')
    if user.declined:
        ctx.event('declined')
    if all_labeled:
        ctx.event('all_labeled')
    if user.stop():
        ctx.event('criterion_held')
    wanted = [i for i in range(1, user.iterations + 1) if (i - 1) % skip == 0]
    ctx.check(set(wanted) <= set(seen['callbacks']), 'callbacks were computed at iterations {} instead of {}', seen['callbacks'], wanted)
    ctx.event('callback_calls', len(seen['callbacks']))
    indexes = [i for b, _ in user.batches for i in b]
    ctx.check(len(indexes) == len(set(indexes)), 'points were asked twice: {}', indexes)
    if kind == 'recorder':
        fits = [e for e in learner.log if e[0] == 'fit_data']
        told = {}
        expected = []
        for b, labels in user.batches:
            told.update(zip(b, labels))
            if sampler is None or len(set(told.values())) == 2:
                expected.append(dict(told))
        ctx.check([f[3] for f in fits] == expected, 'the learner was trained on {} instead of {}', [f[3] for f in fits], expected)
        for f, labels in zip(fits, expected):
            pairs = sorted((tuple(map(float, x)), float(l)) for x, l in zip(f[1], f[2]))
            ctx.check(pairs == sorted((tuple(map(float, original[i])), float(l)) for i, l in labels.items()), 'the learner was trained on wrong points or labels')
        ctx.event('trainings', len(fits))
    reason = 'declined' if user.declined else 'all' if all_labeled else 'criterion'
    return 'learner={} {} n={} batch={} {} wrong={} end={}'.format(kind, sampling, n, batch, '+'.join(names), ''.join(sorted(user.kinds)), reason), bool(user.kinds)


@workload(quick=2000, thorough=40000, cpu=30)
def sessions(ctx, rng):
    nontrivial = False
    for _ in range(int(rng.randint(1, 4))):
        what, hard = session(ctx, rng)
        nontrivial = nontrivial or hard
        ctx.event('sessions')
    ctx.case(nontrivial, what)
