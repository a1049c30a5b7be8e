"""The public contract of the functions declared in header/ctsa.h, written from the header, the
README/wiki usage and the demo programs.  One role per parameter:

  o   handle of a model object            i   caller's read-only data
  w   caller's output array               s   scalar
  x   caller's array, read and updated    t   caller's string
"""
import re

OBJ = {'arima_object': 'arima_set', 'sarima_object': 'sarima_set', 'sarimax_object': 'sarimax_set',
       'auto_arima_object': 'auto_arima_set', 'ar_object': 'ar_set'}

# name -> (kind, roles)
API = {
    'auto_arima_init': ('init', 'iisss'),
    'sarimax_init': ('init', 'ssssssssss'),
    'arima_init': ('init', 'ssss'),
    'sarima_init': ('init', 'ssssssss'),
    'ar_init': ('init', 'ss'),
    'sarimax_exec': ('exec', 'oii'),
    'arima_exec': ('exec', 'oi'),
    'sarima_exec': ('exec', 'oi'),
    'auto_arima_exec': ('exec', 'oii'),
    'ar_exec': ('exec', 'oi'),
    'arima_predict': ('predict', 'oisww'),
    'sarima_predict': ('predict', 'oisww'),
    'sarimax_predict': ('predict', 'oiisiww'),
    'auto_arima_predict': ('predict', 'oiisiww'),
    'ar_predict': ('predict', 'oisww'),
    'ar': ('estimate', 'isssww'),
    'arima_setMethod': ('set', 'os'),
    'sarima_setMethod': ('set', 'os'),
    'auto_arima_setMethod': ('set', 'os'),
    'sarimax_setMethod': ('set', 'os'),
    'arima_setOptMethod': ('set', 'os'),
    'sarima_setOptMethod': ('set', 'os'),
    'sarimax_setOptMethod': ('set', 'os'),
    'auto_arima_setOptMethod': ('set', 'os'),
    'arima_vcov': ('query', 'ow'),
    'sarima_vcov': ('query', 'ow'),
    'sarimax_vcov': ('query', 'ow'),
    'auto_arima_setApproximation': ('set', 'os'),
    'auto_arima_setStepwise': ('set', 'os'),
    'auto_arima_setStationary': ('set', 'os'),
    'auto_arima_setSeasonal': ('set', 'os'),
    'auto_arima_setStationarityParameters': ('set', 'otst'),
    'auto_arima_setSeasonalParameters': ('set', 'ots'),
    'auto_arima_setVerbose': ('set', 'os'),
    'arima_summary': ('summary', 'o'),
    'sarima_summary': ('summary', 'o'),
    'sarimax_summary': ('summary', 'o'),
    'auto_arima_summary': ('summary', 'o'),
    'ar_summary': ('summary', 'o'),
    'ar_estimate': ('estimate', 'iss'),
    'model_estimate': ('estimate', 'issss'),
    'pacf': ('estimate', 'isws'),
    'pacf_opt': ('estimate', 'issws'),
    'acvf': ('estimate', 'isws'),
    'acvf_opt': ('estimate', 'issws'),
    'acvf2acf': ('estimate', 'xs'),
    'arima_free': ('free', 'o'),
    'sarima_free': ('free', 'o'),
    'sarimax_free': ('free', 'o'),
    'auto_arima_free': ('free', 'o'),
    'ar_free': ('free', 'o'),
    'yw': ('estimate', 'issww'),
    'burg': ('estimate', 'issww'),
    'hr': ('estimate', 'isssww' + 'w'),
}
API['hr'] = ('estimate', 'isss' + 'www')

# further entry points of the library that work on the public objects but are not in the installed header
EXT = {
    'arima_setCSSML': ('set', 'os'), 'sarima_setCSSML': ('set', 'os'), 'auto_arima_allowMean': ('set', 'os'),
    'auto_arima_allowDrift': ('set', 'os'), 'sarimax_setParams': ('set', 'oiiii'),
}

# configuration fields a setter owns
SETTER_FIELDS = {
    'arima_setMethod': ('method',), 'sarima_setMethod': ('method',), 'auto_arima_setMethod': ('method',),
    'sarimax_setMethod': ('method',), 'arima_setOptMethod': ('optmethod',), 'sarima_setOptMethod': ('optmethod',),
    'sarimax_setOptMethod': ('optmethod',), 'auto_arima_setOptMethod': ('optmethod',),
    'auto_arima_setApproximation': ('approximation',), 'auto_arima_setStepwise': ('stepwise',),
    'auto_arima_setStationary': ('stationary',), 'auto_arima_setSeasonal': ('seasonal',),
    'auto_arima_setStationarityParameters': ('test', 'alpha_test', 'type'),
    'auto_arima_setSeasonalParameters': ('seas', 'alpha_seas'),
    'auto_arima_setVerbose': ('verbose',),
    'arima_setCSSML': ('cssml',), 'sarima_setCSSML': ('cssml',), 'auto_arima_allowMean': ('imean',),
    'auto_arima_allowDrift': ('allowdrift',), 'sarimax_setParams': ('*phi', '*theta', '*PHI', '*THETA', 'start'),
}

# configuration: what the caller chose at construction or through setters; estimation must not alter it
CONFIG = {
    'arima_set': ('N', 'method', 'optmethod', 'p', 'd', 'q', 'cssml'),
    'sarima_set': ('N', 'method', 'optmethod', 'p', 'd', 'q', 's', 'P', 'D', 'Q', 'cssml'),
    'sarimax_set': ('N', 'method', 'optmethod', 'p', 'd', 'q', 's', 'P', 'D', 'Q', 'r', 'imean', 'start'),
    'auto_arima_set': ('N', 'method', 'optmethod', 'pmax', 'dmax', 'qmax', 'Pmax', 'Dmax', 'Qmax', 's', 'r', 'stationary',
                       'seasonal', 'Order_max', 'p_start', 'q_start', 'P_start', 'Q_start', 'information_criteria', 'stepwise',
                       'num_models', 'approximation', 'verbose', 'test', 'type', 'seas', 'alpha_test', 'alpha_seas', 'start', 'imean', 'allowdrift'),
    'ar_set': ('N', 'method', 'ordermax', 'optmethod'),
}


def obj_struct(fname):
    """struct tag of the object an API function works on"""
    for p in ('auto_arima', 'sarimax', 'sarima', 'arima', 'ar'):
        if re.match(p + r'_(init|exec|predict|set|allow|vcov|summary|free)', fname):
            return p + '_set'
    return None


def field_at(m, tag, off):
    """name of the field of struct `tag` that covers byte offset off"""
    best = None
    for nm, o, sz in m.difields.get(tag, ()):
        if o <= off and (best is None or o >= best[1]):
            best = (nm, o)
    return best[0] if best else None


def fields_from(m, tag, off):
    """fields touched by 'offset off or anything above it'.  An unbounded write that starts in a
    fixed-size member (char[10]) is a write to that member; bounds are a different property."""
    out = set()
    for nm, o, sz in m.difields.get(tag, ()):
        if o <= off and off < o + max(sz, 1):
            out.add(nm)
    if not out:
        x = field_at(m, tag, off)
        if x:
            out.add(x)
    return out


def field(m, tag, name):
    for nm, o, sz in m.difields.get(tag, ()):
        if nm == name:
            return o, sz
    return None


# options: API function -> [(parameter, field, accepted values)]; None accepts every value
_M3, _O8, _B = ('int', (0, 1, 2)), ('int', tuple(range(8))), ('int', (0, 1))
OPTIONS = {
    'arima_setMethod': [(1, 'method', _M3)], 'sarima_setMethod': [(1, 'method', _M3)],
    'sarimax_setMethod': [(1, 'method', _M3)], 'auto_arima_setMethod': [(1, 'method', _M3)],
    'arima_setOptMethod': [(1, 'optmethod', _O8)], 'sarima_setOptMethod': [(1, 'optmethod', _O8)],
    'sarimax_setOptMethod': [(1, 'optmethod', _O8)], 'auto_arima_setOptMethod': [(1, 'optmethod', _O8)],
    'auto_arima_setApproximation': [(1, 'approximation', _B)], 'auto_arima_setStepwise': [(1, 'stepwise', _B)],
    'auto_arima_setStationary': [(1, 'stationary', _B)], 'auto_arima_setSeasonal': [(1, 'seasonal', _B)],
    'auto_arima_setVerbose': [(1, 'verbose', _B)],
    'arima_setCSSML': [(1, 'cssml', _B)], 'sarima_setCSSML': [(1, 'cssml', _B)],
    'auto_arima_allowMean': [(1, 'imean', _B)], 'auto_arima_allowDrift': [(1, 'allowdrift', _B)],
    'auto_arima_setStationarityParameters': [(1, 'test', ('str', ('kpss', 'pp', 'df', 'adf'))), (2, 'alpha_test', None),
                                             (3, 'type', ('str', ('level', 'trend')))],
    'auto_arima_setSeasonalParameters': [(1, 'seas', ('str', ('ocsb', 'seas'))), (2, 'alpha_seas', None)],
}

# constructors: parameter -> field that records it, parameters that must not be negative (or not below 1), defaults
INITS = {
    'arima_init': dict(record={0: 'p', 1: 'd', 2: 'q', 3: 'N'}, low={0: 0, 1: 0, 2: 0, 3: 1},
                       default={'method': 0, 'optmethod': 5, 'cssml': 1, 'retval': 0, 'mean': 0.0, 'var': 1.0}),
    'sarima_init': dict(record={0: 'p', 1: 'd', 2: 'q', 3: 's', 4: 'P', 5: 'D', 6: 'Q', 7: 'N'},
                        low={0: 0, 1: 0, 2: 0, 3: 0, 4: 0, 5: 0, 6: 0, 7: 1},
                        default={'method': 0, 'optmethod': 5, 'cssml': 1, 'retval': 0, 'mean': 0.0, 'var': 1.0}),
    'sarimax_init': dict(record={0: 'p', 1: 'd', 2: 'q', 3: 'P', 4: 'D', 5: 'Q', 6: ('s', (3, 4, 5)), 7: 'r', 8: 'imean', 9: 'N'},
                         low={0: 0, 1: 0, 2: 0, 3: 0, 4: 0, 5: 0, 6: 0, 7: 0, 9: 1}, only={8: ((0, 1),)},
                         default={'method': 0, 'optmethod': 5, 'retval': 0, 'start': 0, 'mean': 0.0, 'var': 1.0}),
    'auto_arima_init': dict(record={2: 's', 3: 'r', 4: 'N', (0, 0): 'pmax', (0, 4): 'dmax', (0, 8): 'qmax',
                                    (1, 0): 'Pmax', (1, 4): 'Dmax', (1, 8): 'Qmax'},
                            low={2: 0, 3: 0, 4: 1, (0, 0): 0, (0, 4): 0, (0, 8): 0, (1, 0): 0, (1, 4): 0, (1, 8): 0},
                            null={0: {'pmax': 5, 'dmax': 2, 'qmax': 5}, 1: {'Pmax': 2, 'Dmax': 1, 'Qmax': 2}},
                            default={'method': 0, 'optmethod': 5, 'retval': 0, 'verbose': 0, 'stepwise': 1, 'stationary': 0,
                                     'seasonal': 1, 'Order_max': 5, 'num_models': 94, 'alpha_test': 0.05, 'alpha_seas': 0.05,
                                     'imean': 1, 'allowdrift': 1, 'test': 'kpss', 'seas': 'seas', 'information_criteria': 'aicc',
                                     'type': 'level', 'p_start': 2, 'q_start': 2, 'P_start': 1, 'Q_start': 1,
                                     'mean': 0.0, 'var': 1.0}),
    'ar_init': dict(record={0: 'method', 1: 'N'}, low={1: 1}, default={'optmethod': 5, 'retval': 0, 'mean': 0.0, 'var': 1.0}),
}
