"D01: the same programs in one installation and another."
import json
import os
import pickle
import signal
import subprocess

import catalog as C
import core
import install_programs as I

NAMES = sorted(C.OPS)
XNAMES = sorted(I.X)
# Python 2 compares unlike objects by address, and so does numpy when it cannot
# compare two arrays: those comparisons mean nothing.
CONFIG_TZ = ['UTC', 'America/New_York', 'Asia/Kolkata', 'XXX+11:30', '']


def needs(name):
    if name.startswith('x:'):
        return I.X[name[2:]][1]
    return frozenset(['scipy']) if 'opt' in C.OPS[name][1] else frozenset()


def execute(script, ctx):
    c = script['config']
    ref, oth = ctx.root + 'ref/', ctx.root + 'other/'
    os.mkdir(ref)
    os.mkdir(oth)

    def reference(emit):
        emit(I.run(script, ref, ref))
    status, out = ctx.process(reference)
    if status != 'done':
        raise core.Harness('the reference ended with ' + status)
    want = out[0][0]
    sf, of = ctx.root + 'script.json', ctx.root + 'out.pickle'
    with open(sf, 'w') as f:
        json.dump(script, f)
    env = dict(os.environ, PYTHONHASHSEED=str(c['hash']), TZ=c.get('tz', 'UTC'), PYTHONDONTWRITEBYTECODE='1')
    env.pop('LD_PRELOAD', None)
    if c.get('lang'):
        env['LANG'] = env['LC_ALL'] = c['lang']
    py = os.environ.get('SIM_PY', '/opt/py27/usr/bin/python2.7')
    argv = [py, '-s', '-B'] + (['-' + c['flag']] if c.get('flag') else []) + \
        [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'd01_child.py'), sf, of, oth]
    p = subprocess.Popen(argv, env=env, stdout=open(os.devnull, 'w'), stderr=subprocess.PIPE,
                         cwd=ctx.root)
    errtxt = p.communicate()[1]
    what = describe(c)
    if p.returncode != 0 or not os.path.exists(of):
        if p.returncode < 0 and -p.returncode not in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
            raise core.Harness('child ended with %d: %s' % (p.returncode, errtxt[-500:]))
        ctx.fail('died', 'the interpreter %s ended with %d: %s' % (what, p.returncode, errtxt[-300:]))
    got = pickle.load(open(of, 'rb'))
    if got['import']:
        if 'la' in got['import'].split('install_programs')[0] and 'd01_child' in got['import']:
            ctx.fail('does-not-import', '%s: %s' % (what, got['import'][-400:]))
    has_ext = c['ext'] != 'none' and bool(os.environ.get(
        {'pyx': 'SIM_CFLABEL_SO', 'c': 'SIM_CFLABEL_C_SO'}.get(c['ext'])))
    if got['ext'] != has_ext:
        ctx.fail('extension', '%s: the extension was %sused' % (what, '' if got['ext'] else 'not '))
    if got['io'] != ('h5py' not in c['absent']):
        ctx.fail('archive', '%s: archiving %s available' % (what, 'is' if got['io'] else 'is not'))
    for k in ('ext', 'hash', 'flag', 'tz', 'lang'):
        v = c.get(k)
        if k == 'hash' and v:
            ctx.fired('another hash seed')
        elif k == 'ext' and v != 'pyx':
            ctx.fired({'none': 'no extension', 'c': 'extension from cflabel.c'}[v])
        elif k in ('flag', 'tz', 'lang') and v and v != 'UTC':
            ctx.fired({'flag': 'interpreter run with -' + str(v), 'tz': 'another time zone',
                       'lang': 'another locale'}[k])
    for m in c['absent']:
        ctx.fired(m + ' not installed')
    res = got['results']
    for i, pr in enumerate(script['programs']):
        dead = False
        for j, o in enumerate(pr['ops']):
            if needs(o['name']) & frozenset(c['absent']):
                if o.get('keep'):
                    dead = True          # the two programs differ from here on
                if 'scipy' in needs(o['name']) and res[i][j] == want[i][j]:
                    continue             # rejected for another reason
                if res[i][j][0] != 'raised':
                    ctx.fail('available', '%s: %s works without %s' %
                             (what, o['name'], sorted(needs(o['name']))))
                continue
            if dead:
                break
            ctx.ev(o['name'], want[i][j])
            ctx.state((o['name'], c['ext'], tuple(c['absent']), c['hash'] % 16,
                       want[i][j][0] if isinstance(want[i][j][0], str) else want[i][j][0][0]))
            ctx.count('compared')
            if res[i][j] != want[i][j]:
                ctx.fail('differs', 'program %d, %s %s gives %s here, %s with %s' %
                         (i, o['name'], o['p'], short(want[i][j]), short(res[i][j]), what))

    def back(emit):
        emit(I.read_back(ref), I.read_back(oth))
    status, out = ctx.process(back)
    if status != 'done':
        raise core.Harness('reading back ended with ' + status)
    a, b = out[0]
    if 'h5py' in c['absent']:
        a = a[1:]
    if a != b:
        ctx.fail('files-differ', 'files written with %s read as %s, not %s' %
                 (what, short(b), short(a)))
    ctx.simtime += 1


def describe(c):
    s = 'hash seed %d' % c['hash']
    s += {'pyx': '', 'c': ', extension from cflabel.c', 'none': ', no extension'}[c['ext']]
    for m in c['absent']:
        s += ', no ' + m
    for k in ('flag', 'tz', 'lang'):
        if c.get(k):
            s += ', %s %s' % (k, c[k])
    return s


def short(v):
    s = repr(v)
    return s if len(s) < 240 else s[:240] + '...'


def generate(rng, prop, tier):
    c = {'hash': 0 if rng.random() < .15 else rng.randrange(1, 2 ** 32),
         'ext': rng.choice(['pyx', 'c', 'c', 'none', 'none', 'none']), 'absent': []}
    r = rng.random()
    if r < .25:
        c['absent'] = rng.choice([['h5py'], ['scipy'], ['h5py', 'scipy']])
    if rng.random() < .3:
        c['flag'] = rng.choice(['O', 'OO'])
    if rng.random() < .4:
        c['tz'] = rng.choice(CONFIG_TZ)
    if rng.random() < .3:
        c['lang'] = rng.choice(['C', 'POSIX', 'en_US.UTF-8'])
    progs = []
    for _ in range(rng.randrange(24, 40)):
        ops = []
        for _ in range(rng.randrange(2, 9)):
            n = 'x:' + rng.choice(XNAMES) if rng.random() < .4 else C.even(rng, NAMES)
            o = {'name': n, 'p': C.gen_params(rng)}
            if n.startswith('x:listmap'):
                o['p']['k'] = rng.randrange(14)
            if rng.random() < .15 and n[0] != '!':
                o['keep'] = 1
            ops.append(o)
        progs.append({'env': C.gen_env(rng), 'ops': ops})
    return {'config': c, 'programs': progs}


def valid(script):
    return True


def simpler(script):
    ps = script['programs']
    n = len(ps) // 2
    while n >= 1:
        for i in range(0, len(ps), n):
            if len(ps) > n:
                yield dict(script, programs=ps[:i] + ps[i + n:])
        n //= 2
    if len(ps) == 1:
        pr = ps[0]
        for i in range(len(pr['ops'])):
            if len(pr['ops']) > 1:
                yield dict(script, programs=[dict(pr, ops=pr['ops'][:i] + pr['ops'][i + 1:])])
        for env in C.simpler_env(pr['env']):
            yield dict(script, programs=[dict(pr, env=env)])
    c = script['config']
    for k in ('flag', 'tz', 'lang'):
        if c.get(k):
            t = dict(c)
            del t[k]
            yield dict(script, config=t)
    if c['absent']:
        yield dict(script, config=dict(c, absent=[]))
    if c['ext'] != 'pyx':
        yield dict(script, config=dict(c, ext='pyx'))
    if c['hash']:
        yield dict(script, config=dict(c, hash=0))


def warm(prop):
    import la
    import la.farray
    try:
        import scipy.special
    except ImportError:
        pass


def rule(prop):
    return ('one installation (hash seed, extension from .pyx, from .c or absent, optional packages '
            'absent, interpreter flags, time zone, locale) runs two to three dozen programs in an '
            'interpreter of its own, and exchanges archive and csv files with the reference '
            'installation; non-trivial: the installation differs from the reference')


def state_measure(prop):
    return 'distinct (operation, extension, absent packages, hash seed modulo 16, outcome)'


def components(prop):
    return {'real': ['la', 'numpy', 'bottleneck', 'h5py and scipy where installed', 'the interpreter',
                     "la's C extension built from cflabel.pyx and from cflabel.c"],
            'simulated': ['what is installed (imports fail)', 'hash seed', 'time zone and locale']}


def assumptions(prop):
    return ['one version of Python, numpy, h5py and scipy each',
            'outcomes are compared exactly, exceptions by their type']


def unreached(prop, results, merge):
    return []
