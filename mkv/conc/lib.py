"""Shared parts of the executable contracts (run under /opt/venv/bin/python against /repo).

A property module registers, for its property,
  gen(rng, H)  -> a JSON-serialisable case (the precondition: only cases the statement speaks about)
  run(case)    -> None, or a text saying which clause of the postcondition failed
The same run() replays a stored case.
"""
import ast, collections, contextlib, io, json, os, random, signal, string, sys, tempfile, traceback

REG = {}


class Skip(Exception):
    """the case is outside the precondition"""


class Known(Exception):
    """only a listed known finding was seen in the case"""


class Prop:
    def __init__(self, id):
        self.id = id; self.variants = []

    def variant(self, name, weight=1):
        """register a (gen, run) pair"""
        def deco(cls):
            if hasattr(cls, 'enumerate'):
                cls.gen.enumerate = cls.enumerate
            self.variants.append((name, weight, cls.gen, cls.run))
            return cls
        return deco


def prop(id):
    if id not in REG:
        REG[id] = Prop(id)
    return REG[id]


# ------------------------------------------------------------------ hints
class Hints:
    """constants of the anchored source files (+-1); those that are new with respect to the
    committed list of constants are preferred. They only steer the sampling of inputs."""

    def __init__(self, ints=(), strs=(), newints=(), newstrs=()):
        self.ints = sorted(set(ints)); self.strs = sorted(set(strs))
        self.newints = sorted(set(newints)); self.newstrs = sorted(set(newstrs))

    def int(self, rng, lo, hi, p=0.35):
        """an integer in lo..hi"""
        r = rng.random()
        if self.newints and r < p:
            c = [i + d for i in self.newints for d in (-1, 0, 1) if lo <= i + d <= hi]
            if c:
                return rng.choice(c)
        if r < p + 0.15:
            c = [i + d for i in self.ints for d in (-1, 0, 1) if lo <= i + d <= hi]
            if c:
                return rng.choice(c)
        return rng.randint(lo, hi)

    def size(self, rng, small=6, big=40, bigp=0.06):
        """a size, mostly small"""
        if self.newints and rng.random() < 0.25:
            c = [i + d for i in self.newints for d in (-1, 0, 1, 2) if 0 <= i + d <= 400]
            if c:
                return rng.choice(c)
        if rng.random() < bigp:
            return rng.randint(small, big)
        return rng.randint(0, small)

    def word(self, rng, pool, p=0.25):
        """a string of the pool, or one from the hints"""
        if self.newstrs and rng.random() < p:
            return rng.choice(self.newstrs)
        return rng.choice(pool)


def consts(path):
    ints, strs = set(), set()
    try:
        tree = ast.parse(open(path, encoding='utf-8').read())
    except (OSError, SyntaxError, ValueError):
        return ints, strs
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                continue
            if isinstance(n.value, int):
                ints.add(n.value)
            elif isinstance(n.value, str) and 0 < len(n.value) <= 60 and '\n' not in n.value:
                strs.add(n.value)
    return ints, strs


# ------------------------------------------------------------------ comparing
def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def expect(cond, msg, *vals):
    if not cond:
        raise AssertionError(msg + ''.join(' | ' + short(v) for v in vals))


def same(got, want, what):
    if got != want or type(got) != type(want) and not (isinstance(got, (int, float)) and isinstance(want, (int, float))):
        raise AssertionError('{}: got {} expected {}'.format(what, short(got), short(want)))


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise AssertionError('{}: raised {} instead of {}'.format(what, type(e).__name__, exc))
    raise AssertionError('{}: did not raise, gave {}'.format(what, short(r)))


# ------------------------------------------------------------------ metaknowledge
def mk():
    import metaknowledge
    if not VERBOSE[0]:
        metaknowledge.VERBOSE_MODE = False
    return metaknowledge


VERBOSE = [False]


class Bar:
    """stand-in for the progress display of interactive sessions: it is on, but prints nothing"""

    def __init__(self, initPer, initString=' ', output=None, secondRow=False, dummy=False):
        self.dummy = dummy

    def __bool__(self):
        return not self.dummy

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def updateVal(self, inputPer, inputString=None):
        pass

    def finish(self, inputString):
        pass


@contextlib.contextmanager
def verbose(on):
    """run with the progress display switched on, as interactive sessions do"""
    if not on:
        yield
        return
    import metaknowledge
    old = []
    for n, m in list(sys.modules.items()):
        if n.split('.')[0] == 'metaknowledge' and hasattr(m, '_ProgressBar'):
            old.append((m, m._ProgressBar)); m._ProgressBar = Bar
    VERBOSE[0] = metaknowledge.VERBOSE_MODE = True
    try:
        yield
    finally:
        VERBOSE[0] = metaknowledge.VERBOSE_MODE = False
        for m, b in old:
            m._ProgressBar = b


def wos(fields, src='', line=0):
    return mk().WOSRecord(collections.OrderedDict((k, list(v)) for k, v in fields.items()), sFile=src, sLine=line)


def RC(recs, **kw):
    kw.setdefault('quietStart', True)
    return mk().RecordCollection([r if not isinstance(r, dict) else wos(r) for r in recs], **kw)


@contextlib.contextmanager
def tmpdir():
    import shutil
    old = os.getcwd()
    d = tempfile.mkdtemp(dir=os.environ.get('MKV_SCRATCH') or None)
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ generators
AUTH = ['Smith, J', 'SMITH, J', 'Doe, A.B.', 'Li, X', 'van Dam, P', 'Anon', "O'Neil, K", 'Müller, Ö', 'Smith, JA', 'Lee, K, Jr']
FULL = ['Smith, John', 'Doe, Anna B.', 'Li, Xiao', 'van Dam, Piet', 'Anon', "O'Neil, Kate", 'Müller, Örs', 'Smith, Jane', 'SMITH, JOHN']
WORD = ['alpha', 'beta', 'Gamma', 'delta-rays', 'X-ray', 'the', 'of', 'networks', 'naïve', 'R&D', 'co2', 'DNA', 'a']
JRN = ['J PHYS', 'NATURE', 'SCIENCE', 'J. CHEM', 'ANN REV 3', 'PLOS ONE', 'NAT']
KW = ['optics', 'Lasers', 'graph theory', 'networks', 'x-ray', 'optics ', 'a;b'[:1], 'OPTICS']
CITES = ['Smith J, 1999, NATURE, V1, P2, DOI 10.1/x', 'SMITH J, 1999, NATURE, V1, P3', 'Smith J, 1999, NATURE',
         'Doe A, 2001, J PHYS, V3, P4', 'Doe A, 2001, J PHYS', '[Anonymous], 1987, SCIENCE', '[Anonymous], 2001, J CHEM, V4',
         'Li X, 2005, SCIENCE, P9', 'Li X, 2005, PLOS ONE, P9, DOI 10.2/y', '2003, NATURE', 'Smith J, NATURE', 'Lee K, 2005',
         'Lee K, 1987, NAT', 'Doe A, 1999, NATURE, V1, P2', 'garbage', '', 'Kim S, 2010, J. CHEM, V8, PA7', 'Li X., 2005, SCIENCE',
         'Smith J, 2000, NATURE, junk at end here', '1850', 'Lee K, 2001, J PHYS, VII']
TITLES = ['On networks', 'The Alpha of beta', 'Short', 'A very long title about the study of networks and graphs', 'Naïve R&D', '']


def subset(rng, pool, lo=0, hi=4, dup=True):
    n = rng.randint(lo, hi)
    if dup and rng.random() < 0.35:
        return [rng.choice(pool) for _ in range(n)]
    return rng.sample(pool, min(n, len(pool)))


def maybe(rng, d, k, v, p=0.75):
    if rng.random() < p:
        d[k] = v() if callable(v) else v


def wosFields(rng, H, ut=None, rich=True, year=True):
    """raw fields of a good WOS record"""
    d = collections.OrderedDict()
    d['PT'] = [rng.choice(['J', 'J', 'J', 'B', 'S', 'P'])]
    au = subset(rng, AUTH, 1, 4, dup=True)
    if H.newstrs and rng.random() < .1:
        au.append(rng.choice(H.newstrs))
    maybe(rng, d, 'AU', au, .85)
    maybe(rng, d, 'AF', lambda: subset(rng, FULL, 1, 4), .7)
    maybe(rng, d, 'TI', lambda: [' '.join(rng.choice(WORD) for _ in range(rng.randint(1, 5))) for _ in range(rng.choice([1, 1, 2]))], .85)
    maybe(rng, d, 'SO', lambda: [H.word(rng, JRN, .1)], .8)
    if rich:
        maybe(rng, d, 'LA', ['English'], .3)
        maybe(rng, d, 'DE', lambda: [lines_of('; '.join(subset(rng, KW, 1, 4)))][0], .5)
        maybe(rng, d, 'ID', lambda: ['; '.join(subset(rng, KW, 1, 4))], .5)
        maybe(rng, d, 'AB', lambda: [' '.join(rng.choice(WORD) for _ in range(rng.randint(1, 12))) + '.' for _ in range(rng.choice([1, 1, 2, 3]))], .5)
        maybe(rng, d, 'C1', lambda: ['[Smith, J] Univ A, City, Country.', 'Univ B, Town, Land.'][:rng.randint(1, 2)], .3)
        maybe(rng, d, 'SC', lambda: ['; '.join(subset(rng, ['Physics', 'Optics', 'Chemistry'], 1, 3, False))], .4)
        maybe(rng, d, 'WC', lambda: ['; '.join(subset(rng, ['Physics', 'Optics', 'Chemistry'], 1, 3, False))], .5)
    maybe(rng, d, 'CR', lambda: subset(rng, CITES, 1, 6), .75)
    if rich:
        maybe(rng, d, 'TC', lambda: [str(H.int(rng, 0, 40))], .3)
        maybe(rng, d, 'PU', ['Wiley'], .2)
        maybe(rng, d, 'J9', lambda: [rng.choice(JRN)], .7)
        maybe(rng, d, 'PD', lambda: [rng.choice(['JAN', 'FEB 3', 'SPR', 'NOV-DEC', 'MAY 12'])], .3)
    if year:
        maybe(rng, d, 'PY', lambda: ['0000' if rng.random() < .02 else str(H.int(rng, 1985, 2015))], .85)
    if rich:
        maybe(rng, d, 'VL', lambda: [rng.choice(['V2', 'A', '12 A', '07']) if rng.random() < .15 else str(H.int(rng, 1, 60))], .6)
        maybe(rng, d, 'BP', lambda: [rng.choice(['1', '22', 'E5', '303', 'P12', 'PP4', 'V7', 'S1-2', '1', '22', '303'])], .6)
        maybe(rng, d, 'DI', lambda: [rng.choice(['10.1/x', '10.2/y', '10.1016/j.z'])], .4)
        maybe(rng, d, 'GA', ['AB1CD'], .3)
    d['UT'] = [ut if ut is not None else 'WOS:%06d' % rng.randint(0, 99999)]
    if rng.random() < .25:       # another field order
        items = list(d.items()); rng.shuffle(items); d = collections.OrderedDict(items)
    return d


def lines_of(s):
    return [s]


def wosList(rng, H, n=None, rich=True, dupIDs=False, year=True):
    n = H.size(rng) if n is None else n
    out = []
    for i in range(n):
        ut = 'WOS:%06d' % (i if not dupIDs or rng.random() < .8 else rng.randint(0, max(i, 1)))
        out.append(wosFields(rng, H, ut, rich=rich, year=year))
    if H.newstrs and out and rng.random() < .15:
        out[0]['UT'] = [rng.choice(H.newstrs)]
    return out


def members(C):
    return set(C)


# ------------------------------------------------------------------ runner
class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def run_case(run, case, limit=20, loud=False):
    """None or a failure text"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), verbose(loud):
            run(case)
        return None
    except Skip:
        return 'SKIP'
    except Known as e:
        return 'KNOWN: ' + str(e)
    except AssertionError as e:
        return str(e) or 'assertion failed'
    except Timeout:
        return 'did not finish within {} s'.format(limit)
    except RecursionError:
        return 'recursion error'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/metaknowledge/' in f.filename]
        loc = where[-1] if where else tb[-1]
        return 'raised {}: {} (at {}:{})'.format(type(e).__name__, short(str(e), 200), os.path.basename(loc.filename), loc.lineno)
    finally:
        signal.alarm(0)
