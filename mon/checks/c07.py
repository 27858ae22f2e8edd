from .. import judge, scen
from .common import sample, simulate

PROP = 'C07'
RULE = ('every emissivity scheme times every cloud scheme, in random letter '
        'case, under all climates and steps; every written longwave value is '
        'recomputed from the written temperature, vapor pressure and cloud '
        'fraction; one evaluation per scheme pair, cloud class, temperature '
        'class and step')
REQUIRED = ['steps', 'values_compared']


def plan(tier):
    n = 140 if tier == 'quick' else 2240
    return [dict(i=i, ty=scen.LW[i % 7], cl=scen.CLOUD[(i // 7) % 2])
            for i in range(n)]


def case(spec, rng, scratch, res):
    def letters(x):
        m = rng.integers(3)
        return x if m else (x.upper() if rng.random() < .5 else x.title())
    opt = dict(lw_type=letters(spec['ty']), lw_cloud=letters(spec['cl']))
    if rng.random() < .2:
        opt['utc_offset'] = True
    s = scen.gen(rng, opt=opt, ambient=True, mask='mixed',
                 nd=int(rng.integers(1, 8)))
    out = simulate(s, scratch)
    judge.longwave(res, s, out)
    if spec['i'] % 13 == 0 and 'longwave' in out.var:
        c = s.cells()[0]
        res.sample = sample(s, first_steps={
            v: judge.col(out, v, c)[:3].tolist() for v in (
                'temp', 'vapor_pressure', 'tskc', 'longwave')})
