"""Which jobs decide which property."""

from mc.harness import THOROUGH

STEP_RULE = 'every (state, script of random answers) pair executed on the real step and compared with the reference'


PREP = ('C16', 'C17', 'C18', 'C23', 'C24', 'C30', 'C32')
LOOP = ('C08', 'C09', 'C11', 'C12', 'C13', 'C25')
MODEL = ('C19', 'C20', 'C21', 'C22', 'C29', 'C33', 'C34', 'C35')
FOREST = ('C14', 'C15', 'C26', 'C27', 'C28', 'C31')


def spec(prop):
    import chain
    small = list(chain.configs())
    wide = list(chain.wide_configs())
    deep = list(chain.deep_configs())
    mc = dict(level='model_checking', rule=STEP_RULE)
    if prop == 'C01':
        use = [c for c in small if c not in ('norules',)] + ['u8-255', 'n256', 'n257', 'n300', 'heavy', 'heavy-min', 'heavy-dead', 'heavy-few', 'min150', 'mass'] + deep
        return dict(jobs=[(chain.acceptance, (c,)) for c in use], **mc)
    if prop == 'C02':
        return dict(jobs=[(chain.proposals, (c,)) for c in small + ['u8-255', 'p255', 'p256', 'p257'] + deep] + [(chain.immobile, c) for c in chain.IMMOBILE], **mc)
    if prop == 'C03':
        return dict(jobs=[(chain.wellformed, (c,)) for c in small + wide + deep], **mc)
    if prop == 'C04':
        return dict(jobs=[(chain.coherence, (c,)) for c in small + wide + deep] + [(chain.coherence_small, (c, t)) for c, t in (('two-min', 'float16'), ('batched', 'bfloat16'), ('d4', 'float16'))] + [(chain.many_coherent, (n,)) for n in (130, 257)], **mc)
    if prop == 'C05':
        mins = [c for c, v in chain.every().items() if v[1].get('minpts') is not None]
        return dict(jobs=[(chain.min_points, (c,)) for c in mins], **mc)
    if prop == 'C06':
        return dict(jobs=[(chain.leaves, (c,)) for c in small + ['n255', 'n256', 'n257', 'n300', 'heavy', 'heavy-min', 'heavy-dead', 'heavy-few', 'min150', 'mass'] + deep] + [(chain.leaves_small, (c, 'float16')) for c in ('two-min', 'p2', 'batched')] + [(chain.many_leaves, (n,)) for n in (130, 257)], **mc)
    if prop == 'C07':
        return dict(jobs=[(chain.sigma, (c,)) for c in small + ['n255', 'n256', 'n257']] + [(chain.sigma_small, (c, 'float16')) for c in ('two', 'p2')], **mc)
    if prop == 'C10':
        return dict(jobs=[(chain.counters, (c,)) for c in small + deep] + [(chain.immobile, c) for c in chain.IMMOBILE] + [(chain.many_trees, (n,)) for n in (255, 256, 257)], **mc)
    import forest
    det = dict(level='model_checking', rule='every input of the bounded space executed on the real function and compared with the reference')
    if prop in FOREST:
        return dict(jobs=getattr(forest, f'jobs_{prop.lower()}')(), **det)
    import prep
    if prop in PREP:
        return dict(jobs=getattr(prep, f'jobs_{prop.lower()}')(), **det)
    import loop
    if prop in LOOP:
        return dict(jobs=getattr(loop, f'jobs_{prop.lower()}')(), **mc)
    import model
    if prop in MODEL:
        return dict(jobs=getattr(model, f'jobs_{prop.lower()}')(), **mc)
    raise KeyError(prop)
