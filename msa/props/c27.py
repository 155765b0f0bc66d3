"""Daily estimates follow the MTCLIM equations."""
from ..prog import *
from .. import oracle as O
LEVEL = 'other'
OUT = ['t_day', 'tskc', 'vapor_pressure', 'shortwave', 'pet', 'daylength', 't_min', 't_max', 'prec']


def dew_vals(v, pet):
    """Dew point the published formula gives for a potential evaporation."""
    r = pet / np.maximum(v.seasonal_prec(), 80)
    return (v.t_min + 273.15) * (-0.127 + 1.121 * (1.003 - 1.444 * r + 12.312 * r ** 2 - 32.766 * r ** 3)
                                 + 0.0006 * (v.t_max - v.t_min)) - 273.15


def tf_vals(v):
    dtr = v.t_max - v.t_min
    b = 0.031 + 0.201 * np.exp(-0.185 * v.smooth_dtr())
    c = 1 - 0.9 * np.exp(-b * dtr ** 1.5)
    return np.where(v.prec > v.sw_prec_thresh, c * v.rain_scalar, c)


def daily(cloud, method='mtclim', extra=(), seeds=(0, 1, 2)):
    def daylight(val):
        # the daily average written by mtclim over the daylight hours only
        s = val('shortwave')
        return mul(s, div(num(86400), val('daylength'))) if method == 'mtclim' else s
    def f():
        c = Checker('daily %s %s %s' % (method, cloud, ' '.join(extra)), seeds=seeds)
        kw = params()
        p = Prog(Config(ts='daily', lw_cloud=cloud, method=method, forcing_extra=extra, out_vars=OUT, utc=FALSE,
                        period_ending=FALSE, **kw))
        val, K = p.val, {k: v for k, v in kw.items()}
        R = p.ref
        c.eq('daylight temperature', p, lambda: val('t_day'),
             lambda: R('t_day', p.inp('t_min'), p.inp('t_max'), K['tday_coef']),
             't_day = tmin + (tmax - tmin)(1 + tday_coef)/2')
        if 'tskc' not in extra:
            def cloudref(v):
                t = tf_vals(v)
                return 1 - t if cloud == 'cloud_deardorff' else np.sqrt((1 - t) / 0.65)
            c.eq('cloud fraction', p, lambda: val('tskc'), Num(cloudref),
                 'tskc of the transmittance with rain correction and the 30-day window')
        if method == 'mtclim':
            c.eq('shortwave', p, lambda: val('shortwave'),
                 Num(lambda v: v.solar()[1] / 86400 * v.solar()[2] * tf_vals(v) * np.maximum(
                     v.solar()[3] - 6.1e-5 * v.out('vapor_pressure'), 1e-4)),
                 'shortwave of the reported vapor pressure', tol=1e-5)
            # the vapor pressure is the one of a dew point that reproduces itself
            c.eq('dew point', p, lambda: val('vapor_pressure'),
                 Num(lambda v: O.svp(dew_vals(v, v.out('pet')))),
                 'vapor pressure is saturation at the dew point its own potential evaporation gives',
                 tol=1e-4)
        if 'pet' not in extra:
            c.eq('potential evaporation', p, lambda: val('pet'),
                 lambda: R('pet', daylight(val), val('t_day'), val('daylength'), p.dom('D_elev'), K['lapse_rate']),
                 'Priestley-Taylor evaporation of the reported shortwave, t_day and daylength')
        if method == 'passthrough' and 'vapor_pressure' not in extra:
            c.eq('vapor pressure', p, lambda: val('vapor_pressure'),
                 Num(lambda v: O.svp(dew_vals(v, v.out('pet')))),
                 'vapor pressure is saturation at the dew point of the reported evaporation')
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    sd = tuple(range(3 if tier == 'quick' else 12))
    return [('mtclim deardorff', daily('cloud_deardorff', seeds=sd)), ('mtclim default', daily('default', seeds=sd)),
            ('passthrough', daily('cloud_deardorff', 'passthrough', ('shortwave',), sd)),
            ('passthrough default', daily('default', 'passthrough', ('shortwave', 'pet'), sd))]
