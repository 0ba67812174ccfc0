"""Run-time contract checking: shared pieces.

A property module in rac.props defines
    QUICK, THOROUGH       number of generated cases per tier
    case(rng, i)          one case; raises Bad when the executable contract is refuted
Every case is a deterministic function of (property, seed, index).
"""
import os, sys, signal, contextlib, io, warnings
import numpy as np

REPO = os.environ.get('PYNARE_REPO', '/repo')


class Bad(Exception):
    """an executable contract refuted by the code under test"""
    def __init__(self, clause, **info):
        super().__init__(clause)
        self.clause, self.info = clause, info


class Skip(Exception):
    """the drawn input is outside the property's domain"""


class Timeout(BaseException):
    pass


def rng_for(prop, seed, i):
    return np.random.default_rng([int(seed), int(prop[1:]), int(i)])


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all='ignore'), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        yield


@contextlib.contextmanager
def limit(seconds, clause, **info):
    """the enclosed call into the code under test must return in time"""
    def fire(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, fire)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    except Timeout:
        raise Bad(clause, **info) from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


SAMPLE = []


def trim(x, n=600):
    """a sample short enough to be read"""
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in list(x.items())[:12]}
    if isinstance(x, list):
        return [trim(v, n) for v in x[:8]]
    return x[:n] if isinstance(x, str) else x


def ut(what, fn, *a, info=None, seconds=60, **k):
    """call into the code under test where the contract allows no exception"""
    if info and len(SAMPLE) < 50:
        SAMPLE.append(info)
    with limit(seconds, f'{what}: did not return', **(info or {})):
        try:
            with quiet():
                return fn(*a, **k)
        except (Bad, Skip, Timeout):
            raise
        except Exception as ex:
            raise Bad(f'{what}: raised {type(ex).__name__}: {str(ex)[:200]}',
                      **(info or {})) from ex


def must_raise(what, kinds, fn, *a, info=None, seconds=20, **k):
    with limit(seconds, f'{what}: did not return', **(info or {})):
        try:
            with quiet():
                r = fn(*a, **k)
        except kinds as ex:
            return ex
        except Exception as ex:
            raise Bad(f'{what}: raised {type(ex).__name__} ({str(ex)[:120]}) rather than '
                      f'{kinds}', **(info or {})) from ex
    raise Bad(f'{what}: accepted and gave {str(r)[:200]}', **(info or {}))


def close(what, got, want, rtol=1e-6, atol=1e-8, **info):
    try:
        got = np.asarray(got, dtype=float)
    except Exception as ex:
        raise Bad(f'{what}: not numeric ({got!r:.200})', **info) from ex
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Bad(f'{what}: shape {got.shape}, expected {want.shape}', got=got, want=want, **info)
    scale = max(1., float(np.max(np.abs(want))) if want.size else 1.)
    nan = np.isnan(want)
    if nan.any():
        # an undefined expected value asks for an undefined one
        if not np.array_equal(nan, np.isnan(got)):
            raise Bad(f'{what}: got {got!r:.200}, expected {want!r:.200}', got=got, want=want, **info)
        got, want = np.where(nan, 0., got), np.where(nan, 0., want)
        scale = max(1., float(np.max(np.abs(want))))
    bad = ~(np.abs(got - want) <= atol * scale + rtol * np.abs(want) + rtol * scale * 1e-2)
    if bad.any():
        ix = tuple(int(k[0]) for k in np.where(bad)) if got.ndim else ()
        raise Bad(f'{what}: at {ix} got {got[ix]!r}, expected {want[ix]!r}', got=got, want=want, **info)


def small(what, got, scale=1., tol=1e-6, **info):
    got = np.asarray(got, dtype=float)
    if not np.all(np.abs(got) <= tol * max(1., scale)):
        raise Bad(f'{what}: residual {np.max(np.abs(got)) if got.size else 0:.3g} is not zero',
                  residual=got, **info)


def equal(what, got, want, **info):
    if not got == want:
        raise Bad(f'{what}: got {got!r:.300}, expected {want!r:.300}', **info)


class NoStateSpace:
    def __init__(self, model):
        self.model = model


@contextlib.contextmanager
def light_models():
    """build models without decomposing them (nothing but the state space is skipped)"""
    import pynare.core.generic as g
    real = getattr(g, 'StateSpace', None)
    if real is None:
        yield
        return
    g.StateSpace = NoStateSpace
    try:
        yield
    finally:
        g.StateSpace = real


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.generic,)):
        return jsonable(x.item())
    if isinstance(x, (str, int, bool, type(None))):
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return repr(x)
    return repr(x)[:500]


ODD = (.9995, 1.0004, .00005, .0008, 3e-6, 2.00003, 1234.5, 25000., .333333333, 1e-4, 12.0001)


def odd(rng, x, p=.25, signed=False):
    """now and then a magnitude that everyday examples do not have"""
    if rng.random() < p:
        x = float(rng.choice(ODD))
        if signed and rng.random() < .5:
            x = -x
    return x
