"""Documented options are accepted in any case, bad ones refused."""
from ..prog import *
from .c08 import refusal, computed
LEVEL = 'other'
GOOD = {'lw_type': ['default', 'DEFAULT', 'tva', 'TVA', 'anderson', 'ANDERSON', 'Brutsaert', 'BRUTSAERT', 'brutsaert',
                    'satterlund', 'SATTERLUND', 'idso', 'IDSO', 'Idso', 'prata', 'PRATA', 'Prata'],
        'lw_cloud': ['default', 'DEFAULT', 'Default', 'cloud_deardorff', 'CLOUD_DEARDORFF', 'Cloud_Deardorff'],
        'prec_type': ['uniform', 'UNIFORM', 'Uniform', 'triangle', 'TRIANGLE', 'mix', 'MIX', 'Mix'],
        'out_precision': ['f4', 'f8']}
BAD = {'lw_type': ['', 'pratta', 'cloud_deardorff', 'prat', 'none', 'tva '],
       'lw_cloud': ['', 'deardorff', 'prata', 'cloud', 'none'],
       'out_precision': ['', 'f2', 'f16', 'float32', 'i4', 'f', '4']}


def kinds(o):
    return ('daily', 'sub') if o in ('lw_cloud', 'out_precision') else ('sub',)


def good(opt, v, kind):
    def f():
        c = Checker('%s = %r %s' % (opt, v, kind))
        name = {'lw_type': 'longwave', 'lw_cloud': 'longwave' if kind == 'sub' else 'tskc'}.get(opt, 'prec')
        low = Prog(Config(ts=kind, utc=FALSE, period_ending=FALSE, out_vars=[name], **{opt: v.lower()}))
        p = Prog(Config(ts=kind, utc=FALSE, period_ending=FALSE, out_vars=[name], **{opt: v}))
        if p.err and not p.died:
            c.add('accepted', 'undecided', 'options', detail=p.err)
            return c
        c.fact('accepted', not p.died and 'N_' + name in computed(p), 'a documented option is accepted and implemented',
               at=p.death() if p.died else '', detail='%s = %r fails' % (opt, v))
        if v != v.lower() and not p.err and not low.err:
            c.eq('same as lower case', p, lambda: p.val(name), lambda: low.val(name),
                 'capitalization does not matter')
        c.saw(p, low)
        return c
    return f


def bad(opt, v, kind='sub'):
    def f():
        c = Checker('%s = %r %s' % (opt, v, kind))
        p = Prog(Config(ts=kind, utc=FALSE, period_ending=FALSE, out_vars=['prec'], **{opt: v}))
        refusal(c, 'refused', p, 'an option outside the documented set is refused before output is created')
        c.saw(p)
        return c
    return f


class Without(Config):
    """A configuration in which a setting is missing or empty."""

    def __init__(self, key, value, **k):
        Config.__init__(self, **k)
        self.key, self.value = key, value

    def values(self, I, h):
        p = Config.values(self, I, h)
        d = I.mut(p)
        k = const(self.key)
        d.items.pop(k, None)
        if self.value is not None:
            I.lib.dict_set(I, p, k, self.value(I))
        return p


def missing(key, what, value):
    def f():
        c = Checker('without %s (%s)' % (key, what))
        for kind in ('sub', 'daily'):
            p = Prog(Without(key, value, ts=kind, utc=FALSE, period_ending=FALSE, out_vars=['prec']))
            refusal(c, 'refused %s' % kind, p,
                    'a run without %s is refused before output is created' % key.replace('_', ' '))
            c.saw(p)
        return c
    return f


def tasks(tier, seed):
    r = [('%s %s %s' % (o, v, k), good(o, v, k)) for o, vs in GOOD.items() for v in vs for k in kinds(o)]
    r += [('%s %s' % (o, v), bad(o, v, k)) for o, vs in BAD.items() for v in vs for k in ('daily', 'sub')]
    E = lambda I: const('')
    L = lambda I: I.list_(())
    D = lambda I: I.dict_({})
    r += [('no ' + k + w, missing(k, w, v)) for k, w, v in (
        ('forcing', 'missing', None), ('forcing', 'empty list', L), ('forcing', 'empty text', E),
        ('forcing_vars', 'missing', None), ('forcing_vars', 'empty', D),
        ('out_dir', 'missing', None), ('out_dir', 'empty text', E),
        ('out_vars', 'empty', D))]
    return r
