"""Helpers for the checks that look at whole output files (see files.py)."""
import numpy as np
from .prog import *
from .files import simulate, Bad, unroll
from .val import Unknown, truth

UNITS = 'minutes since 2000-01-01 00:00:00.0'
EPOCH2000 = 10957 * 1440.0


def world(p, seed=0, values=None, sets=None, edit=None, **k):
    """Simulated output files of a program on one valuation: (valuation, files)."""
    e = V.whole(p.cfg, seed, **k)
    e.syms.update(sets or {})
    if edit:
        edit(e)
    return e, simulate(p, e, values)


def stamps(f):
    """Times of a file in minutes since 1970."""
    t = f.vars['time']
    u = t.attrs.get('units') or UNITS
    w = u.split()
    k = {'minutes': 1.0, 'hours': 60.0, 'days': 1440.0, 'seconds': 1 / 60.0}[w[0]]
    o = V.minutes(V.datetime.datetime.strptime(w[2], '%Y-%m-%d'))
    return t.a * k + o


def assembled(files, name):
    """Times and values of an output variable over all files, in order of the first time."""
    fs = sorted(files.values(), key=lambda f: stamps(f)[0])
    return np.concatenate([stamps(f) for f in fs]), np.concatenate([f.vars[name].a for f in fs])


def same_grid(a, b, tol=1e-9):
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def differ(a, b):
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    w = np.argwhere(~((np.abs(a - b) <= 1e-9 * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))
    k = tuple(int(x) for x in w[0])
    return 'at %s: %.8g instead of %.8g' % (k, a[k], b[k])


def wrote(p, name):
    return next((e['at'] for e in p.all('nc_write') if e['var'] is const('N_' + name)), '?')


class Tries(object):
    """An obligation decided over a family of valuations."""

    def __init__(self, c, name, rule, at=''):
        self.c, self.name, self.rule, self.at = c, name, rule, at
        self.n, self.bad, self.why = 0, None, ''

    def run(self, f, what):
        """f() -> None when fine, otherwise what is wrong."""
        if self.bad:
            return
        try:
            r = f()
        except Bad as b:
            r = str(b)
            self.at = b.at
        except Undecided as u:
            self.why = str(u)
            return
        except Unknown as u:
            self.why = str(u)
            return
        except (ValueError, TypeError, IndexError, KeyError, AttributeError, ZeroDivisionError) as u:
            self.why = '%s %s' % (type(u).__name__, str(u)[:100])
            return
        self.n += 1
        if r:
            self.bad = '%s: %s' % (what, r)

    def done(self, key=None):
        if self.bad:
            return self.c.add(self.name, 'violated', self.rule, 'random interpretation', self.at, self.bad, key)
        if self.n == 0:
            return self.c.add(self.name, 'undecided', self.rule, detail=self.why)
        return self.c.add(self.name, 'holds', self.rule, 'random interpretation (%d valuations)' % self.n)
