"""Year-on-year rate."""
from .common import *
EXPLAIN, ASSUME = EXPLAIN_F, ASSUME_LIB
RULE = 'year-on-year outputs equal their reference definition'
SPEC = '''
from rdtools import degradation

def rmedian(x, q):
    cut = x.astype(float).fillna(0).quantile(q) / 1000
    return x[x > cut].median()

def factor(s, recenter):
    s = s.sort_index()
    if recenter:
        return rmedian(s[s.index[0]:s.index[0] + pd.Timedelta('364d')], 0.99)
    return 1.0

def pairs(s, recenter):
    s = s.sort_index()
    f = factor(s, recenter)
    s.name = 'energy'
    s.index.name = 'dt'
    e = s.reset_index()
    e['energy'] = e['energy'] / f
    e['dt_shifted'] = e.dt + pd.DateOffset(years=1)
    df = pd.merge_asof(e[['dt', 'energy']], e.sort_values('dt_shifted'), left_on='dt', right_on='dt_shifted',
                       suffixes=['', '_right'], tolerance=pd.Timedelta('8D'))
    df['yoy'] = 100.0 * (df.energy - df.energy_right) / ((df.dt - df.dt_right) / pd.Timedelta('365d'))
    df.index = df.dt
    return df

def usage(df):
    right = df.set_index(df.dt_right).drop_duplicates('dt_right')
    return df.yoy.notnull().astype(int).add(right.yoy.notnull().astype(int), fill_value=0)

def code_rate_none(s: series, recenter: bool):
    return degradation.degradation_year_on_year(s, recenter=recenter, uncertainty_method=None)
def spec_rate_none(s: series, recenter: bool):
    return pairs(s, recenter).yoy.dropna().median()

def code_rate_simple(s: series, recenter: bool, p: scalar, L: scalar, b: scalar):
    return degradation.degradation_year_on_year(s, recenter=recenter, exceedance_prob=p, confidence_level=L, block_length=b)[0]
def spec_rate_simple(s: series, recenter: bool, p: scalar, L: scalar, b: scalar):
    return pairs(s, recenter).yoy.dropna().median()

def code_rate_circular(s: series, recenter: bool, p: scalar, L: scalar, b: scalar):
    return degradation.degradation_year_on_year(s, recenter=recenter, exceedance_prob=p, confidence_level=L, uncertainty_method='circular_block', block_length=b)[0]
def spec_rate_circular(s: series, recenter: bool, p: scalar, L: scalar, b: scalar):
    return pairs(s, recenter).yoy.dropna().median()

def info(i):
    return {'factor': i['renormalizing_factor'], 'values': i['YoY_values'], 'usage': i['usage_of_points']}

def code_info_simple(s: series, recenter: bool):
    return info(degradation.degradation_year_on_year(s, recenter=recenter)[2])
def spec_info_simple(s: series, recenter: bool):
    df = pairs(s, recenter)
    return {'factor': factor(s, recenter), 'values': df.yoy.dropna(), 'usage': usage(df)}

def code_info_circular(s: series, recenter: bool):
    return info(degradation.degradation_year_on_year(s, recenter=recenter, uncertainty_method='circular_block')[2])
def spec_info_circular(s: series, recenter: bool):
    df = pairs(s, recenter)
    return {'factor': factor(s, recenter), 'values': df.yoy.dropna(), 'usage': usage(df)}

def code_default_recenter(s: series):
    return degradation.degradation_year_on_year(s)[0]
def spec_default_recenter(s: series):
    return pairs(s, True).yoy.dropna().median()
'''


def check(ctx):
    ctx.need('degradation', 'degradation_year_on_year')
    ctx.formulas(SPEC, RULE)
