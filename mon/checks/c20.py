"""C20: the package version is derived from the version tags of the history the package was taken from."""
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile

from mon import core, gen

RULE = ('the package is copied into a scratch repository and a random history (commits, merges, version tags, other tags, '
        'local changes, detached heads, exported archives) is applied step by step; after each step the reported version is '
        'compared with a model of the history; non-trivial = a state with a version tag in its past; distinct by expected report')
MINIMUM = {'long_histories': 4, 'states': 200, 'on_tag': 30, 'after_tag': 60, 'no_tag': 20, 'dirty': 30, 'merges': 10, 'archives': 20, 'imports': 20,
           'unrelated_tags': 30, 'not_a_checkout': 10}
CASE_LIMIT = 120
ASSUMPTIONS = ['git is installed', 'releases are tagged ver-X as configured for the distribution (setup.cfg)']
FILE = 'bayesian_decision_tree/_version.py'
ENV = {'GIT_CONFIG_GLOBAL': '/dev/null', 'GIT_CONFIG_NOSYSTEM': '1', 'GIT_AUTHOR_NAME': 'a', 'GIT_AUTHOR_EMAIL': 'a@b',
       'GIT_COMMITTER_NAME': 'a', 'GIT_COMMITTER_EMAIL': 'a@b', 'HOME': '/nonexistent', 'LC_ALL': 'C'}
NAMES = ['1.0', '0.9', '1.4.2', '2.0rc1', '10.0', '1.0-beta', '3.1.post1', '0', '2018.11', '1.2.3-rc-4', '1.0+local',
         'rev.2', 'v1.7', 'e1', 'ver-4.4', 'version-6']


def plan(tier, seed):
    f = 2 if tier == 'quick' else 12
    return gen.plan(seed, [(48 * f, {'k': 'history'})])


def git(cwd, *args, when=None):
    env = dict(os.environ, **ENV)
    for v in list(env):
        if v.startswith('GIT_') and v not in ENV:
            del env[v]
    env['GIT_CEILING_DIRECTORIES'] = os.path.dirname(os.path.dirname(cwd))
    if when:
        env['GIT_AUTHOR_DATE'] = env['GIT_COMMITTER_DATE'] = when
    return subprocess.run(['git'] + list(args), cwd=cwd, env=env, check=True, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE).stdout.decode().strip()


def load(root):
    """the version report of the copy of the package in root"""
    spec = importlib.util.spec_from_file_location('scratch_version', os.path.join(root, FILE))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    v = m.get_versions()
    return {k: v[k] for k in ('version', 'full-revisionid', 'dirty', 'error', 'date')}


def imported(root, cwd):
    out = subprocess.run([sys.executable, '-B', '-c', 'import sys; sys.path.insert(0, sys.argv[1])\n'
                          'import bayesian_decision_tree as b\nprint(b.__file__)\nprint(b.__version__)', root], cwd=cwd,
                         env=dict(os.environ, GIT_CEILING_DIRECTORIES=os.path.dirname(root)),
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    lines = out.stdout.decode().split('\n')
    assert out.returncode == 0 and lines[0].startswith(root), (out.stderr.decode()[-800:], lines)
    return lines[1]


class History:
    """model of the repository: commits with parents, tags"""
    def __init__(self):
        self.parents, self.tags, self.dates = {}, {}, {}

    def past(self, c):
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.parents[x]
        return seen

    def expected(self, head, date_order):
        """possible versions: nearest version tags (fewest commits that the tag does not contain)"""
        past = self.past(head)
        options = {}
        for name, c in self.tags.items():
            if c in past:
                options.setdefault(len(past - self.past(c)), []).append(name)
        if not options:
            return {'0.post.dev{}'.format(len(past))}, None
        best = min(options)
        return {n if best == 0 else '{}.post.dev{}'.format(n, best) for n in options[best]}, best


def run(case, rec):
    r = gen.rng(case)
    base = tempfile.mkdtemp(prefix='verif-c20-')
    cwd0 = os.getcwd()
    saved = {k: os.environ.get(k) for k in ('GIT_CEILING_DIRECTORIES', 'GIT_CONFIG_GLOBAL', 'GIT_CONFIG_NOSYSTEM')}
    os.environ.update(GIT_CEILING_DIRECTORIES=base, GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_NOSYSTEM='1')
    try:
        history(case, rec, r, base)
    finally:
        os.chdir(cwd0)
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(base, ignore_errors=True)


def history(case, rec, r, base):
    root = os.path.join(base, str(r.choice(['src', 'work copy', 'bayes-1.0', 'ver-9.9'])))
    other = os.path.join(base, 'elsewhere')
    shutil.copytree(core.PKG, os.path.join(root, 'bayesian_decision_tree'), ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    os.makedirs(other)
    # somebody else's repository, with a version tag of its own, as the current directory
    git(other, 'init', '-q', '-b', 'main')
    git(other, 'commit', '-q', '--allow-empty', '-m', 'x')
    git(other, 'tag', 'ver-77.7')
    os.chdir(other)

    v = rec.api('version of a plain directory', load, root)
    rec.event('not_a_checkout')
    rec.check(v['version'] == '0+unknown' and v['full-revisionid'] is None, 'version without a history', got=v)

    git(root, 'init', '-q', '-b', 'main')
    with open(os.path.join(root, '.gitattributes'), 'w') as f:
        f.write(FILE + ' export-subst\n')
    with open(os.path.join(root, '.gitignore'), 'w') as f:
        f.write('__pycache__/\nignored*\n')
    git(root, 'add', '-A')
    H = History()
    t = [1500000000]
    names = list(r.permutation(NAMES))
    n_file = [0]

    def stamp():
        t[0] += int(r.integers(1, 90000))
        return '{} {}'.format(t[0], r.choice(['+0000', '+0200', '-0530']))

    def commit(message='c'):
        n_file[0] += 1
        with open(os.path.join(root, 'f{}.txt'.format(n_file[0])), 'w') as f:
            f.write('x')
        git(root, 'add', '-A')
        head = git(root, 'rev-parse', 'HEAD') if H.parents else None
        git(root, 'commit', '-q', '-m', message, when=stamp())
        new = git(root, 'rev-parse', 'HEAD')
        H.parents[new] = [head] if head else []
        return new

    commit('first ver-5.5 (mentioned only)')
    log = ['init']
    if case['i'] % 12 == 5:
        # a long history
        head = git(root, 'rev-parse', 'HEAD')
        if r.random() < .7:
            name = str(names.pop())
            git(root, 'tag', 'ver-' + name, when=stamp())
            H.tags[name] = head
        for _ in range(int(r.choice([101, 113, 128, 260]))):
            git(root, 'commit', '-q', '--allow-empty', '-m', 'c', when=stamp())
        line = git(root, 'rev-list', '--first-parent', 'HEAD').split()
        for new, old in zip(line, line[1:]):
            H.parents[new] = [old]
        log.append('long')
        rec.event('long_histories')
        observe(case, rec, r, root, other, H, log, base)
    for step in range(int(r.integers(8, 16))):
        op = str(r.choice(['commit', 'commit', 'commit', 'tag', 'tag', 'other_tag', 'merge', 'checkout']))
        head = git(root, 'rev-parse', 'HEAD')
        if op == 'commit':
            for _ in range(int(r.integers(1, 4)) if r.random() < .8 else 11):
                commit()
        elif op == 'tag':
            if not names or head in H.tags.values():
                continue
            name = str(names.pop())
            kind = ['-a', '-m', 'release'] if r.random() < .5 else []
            git(root, 'tag', *kind, 'ver-' + name, when=stamp())
            H.tags[name] = head
        elif op == 'other_tag':
            git(root, 'tag', str(r.choice(['v', 'release-', '', 'xver-', 'Ver-', 'old-ver-'])) + '8.8.{}'.format(step))
            rec.event('unrelated_tags')
        elif op == 'merge':
            past = sorted(H.parents)
            start = past[int(r.integers(len(past)))]
            git(root, 'checkout', '-q', start)
            for _ in range(int(r.integers(1, 3))):
                side = commit('side')
            if r.random() < .4 and names:
                name = str(names.pop())
                git(root, 'tag', '-a', '-m', 'release', 'ver-' + name, when=stamp())
                H.tags[name] = side
            git(root, 'checkout', '-q', head)
            git(root, 'merge', '-q', '--no-ff', '-m', 'merge', side, when=stamp())
            new = git(root, 'rev-parse', 'HEAD')
            H.parents[new] = [head, side]
            rec.event('merges')
        elif op == 'checkout':
            past = sorted(H.parents)
            git(root, 'checkout', '-q', past[int(r.integers(len(past)))])
        log.append(op)
        observe(case, rec, r, root, other, H, log, base)


def observe(case, rec, r, root, other, H, log, base):
    head = git(root, 'rev-parse', 'HEAD')
    if set(git(root, 'log', '--format=%H').split()) != H.past(head):
        raise AssertionError('model of the history is wrong')
    versions, distance = H.expected(head, None)
    info = dict(history=log, tags=sorted(H.tags), expected=sorted(versions))
    dirty = str(r.choice(['no', 'no', 'changed', 'staged', 'deleted', 'untracked', 'ignored']))
    path = os.path.join(root, 'f1.txt')
    if dirty == 'changed' or dirty == 'staged':
        with open(path, 'w') as f:
            f.write('different content')
        if dirty == 'staged':
            git(root, 'add', 'f1.txt')
    elif dirty == 'deleted':
        os.unlink(path)
    elif dirty in ('untracked', 'ignored'):
        with open(os.path.join(root, dirty + '.txt'), 'w') as f:
            f.write('x')
    before = git(root, 'status', '--porcelain', '--ignored')
    v = rec.api('version', load, root)
    rec.check(git(root, 'status', '--porcelain', '--ignored') == before, 'asking for the version changes the checkout', **info)
    rec.event('states')
    rec.event('on_tag' if distance == 0 else 'no_tag' if distance is None else 'after_tag')
    if distance is not None:
        rec.nontrivial(sorted(versions))
    rec.check(v['version'] in versions, 'the version does not follow from the history', got=v, **info)
    rec.check(v['full-revisionid'] == head, 'revision', got=v, head=head, **info)
    rec.check(v['error'] is None, 'error for a good history', got=v, **info)
    is_dirty = dirty in ('changed', 'staged', 'deleted')
    rec.check(bool(v['dirty']) == is_dirty, 'local changes', got=v, changes=dirty, **info)
    if is_dirty:
        rec.event('dirty')
    date = git(root, 'show', '-s', '--format=%ci', 'HEAD')
    rec.check(re.sub(r'[T ]', '', str(v['date'])) == re.sub(r' ', '', date), 'date', got=v, date=date, **info)
    rec.check(rec.api('version', load, root) == v, 'version differs when asked again', **info)
    if r.random() < .3:
        w = rec.api('import', imported, root, other)
        rec.event('imports')
        rec.check(w == v['version'], 'the version of the imported package is another one', got=w, report=v, **info)
    if r.random() < .3:
        os.chdir(str(r.choice([root, os.path.join(root, 'bayesian_decision_tree'), '/', base])))
        rec.check(rec.api('version', load, root) == v, 'the version depends on the current directory', cwd=os.getcwd(), **info)
        os.chdir(other)
    git(root, 'reset', '-q', '--hard')
    git(root, 'clean', '-q', '-fdx')
    # an exported archive knows the tags of its commit only
    if r.random() < .4:
        arch = os.path.join(base, 'export')
        os.makedirs(arch)
        tar = os.path.join(base, 'a.tar')
        git(root, 'archive', '-o', tar, 'HEAD')
        subprocess.run(['tar', 'xf', tar, '-C', arch], check=True)
        rec.event('archives')
        a = rec.api('version of an archive', load, arch)
        if distance == 0:
            rec.check(a['version'] in versions, 'archive of a release: version', got=a, **info)
            rec.check(a['full-revisionid'] == head and a['error'] is None and a['dirty'] is False, 'archive of a release', got=a, **info)
            rec.check(a['date'] is not None and re.sub(r'[T ]', '', a['date']) == re.sub(r' ', '', date), 'archive of a release: date',
                      got=a, date=date, **info)
        else:
            rec.check(a['version'] == '0+unknown' and a['full-revisionid'] == head, 'archive of something that is not a release', got=a, **info)
        if r.random() < .4:
            w = rec.api('import', imported, arch, other)
            rec.event('imports')
            rec.check(w == a['version'], 'the version of the imported package is another one', got=w, report=a, **info)
        shutil.rmtree(arch)
        os.unlink(tar)
    rec.sample({'case': case, 'history': list(log), 'tags': sorted(H.tags), 'distance': distance, 'version': v['version']})
