"""Each longwave scheme computes its published formula."""
from ..prog import *
LEVEL = 'other'
TYPES = ['default', 'tva', 'anderson', 'brutsaert', 'satterlund', 'idso', 'prata']
CLOUDS = ['default', 'cloud_deardorff']


def scheme(lt, lc, method='mtclim', extra=(), utc=FALSE, spell=None):
    def f():
        c = Checker('%s/%s %s %s' % (lt, lc, method, 'UTC' if utc is TRUE else 'local'))
        p = Prog(Config(ts='sub', lw_type=spell or lt, lw_cloud=lc, method=method, forcing_extra=extra, utc=utc,
                        period_ending=FALSE, out_vars=['temp', 'vapor_pressure', 'tskc', 'longwave']))
        val = p.val
        c.eq('longwave', p, lambda: val('longwave'),
             lambda: p.ref('longwave', lt, lc, val('temp'), val('vapor_pressure'), val('tskc')),
             'emissivity of the named scheme with vapor pressure in hPa, cloud fraction by the named cloud scheme, '
             'times the Stefan-Boltzmann flux in kelvin')
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    r = [('%s/%s' % (a, b), scheme(a, b)) for a in TYPES for b in CLOUDS]
    r.append(('prata utc', scheme('prata', 'cloud_deardorff', utc=TRUE)))
    r.append(('prata upper', scheme('prata', 'cloud_deardorff', spell='PRATA')))
    r.append(('passthrough', scheme('tva', 'cloud_deardorff', 'passthrough', ('shortwave', 'tskc'))))
    return r
