"""Source of properties.jsonl (kept as Python so that long texts stay readable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', "Caller's input data is never modified or retained",
     "No public function writes to the memory of an array or string the caller passes as input (series, regressors, future "
     "regressors, order limits, test names): after any call the caller's data is bit-for-bit what it was. No such address is kept "
     "inside a model object or in library state after the call returns, so the caller may reuse or release the memory at once.",
     ['inputs', 'histories', 'configurations'], 'every public function, every input array, every path through the estimators',
     'The example programs read each series once and never look at it again, so an estimator that centres, differences or '
     'Box-Cox-transforms in place passes all of them; only an argument about every path settles it.',
     ['src/ctsa.c', 'src/emle.c', 'src/talg.c', 'src/boxjenkins.c', 'src/stats.c', 'src/pacf.c'],
     [('private working copies of the series before centring and differencing', 'src/emle.c css/as154 families, src/ctsa.c auto_arima1'),
      ('regressors copied before the drift column is added', 'src/ctsa.c sarimax_wrapper, myarima')],
     observe=['contents of the arrays passed in, after return'])
prop('C02', 'Queries leave a fitted model unchanged; estimation leaves its settings',
     "Forecasting, copying out the covariance and printing a summary change nothing in the model object, so they can be repeated "
     "and interleaved in any order. Estimating a model changes only its results, never what the caller chose when creating or "
     "configuring it, and each setter changes only the option it is named after.",
     ['inputs', 'histories', 'configurations'], 'every sequence of calls on one object, all orders and methods',
     'The programs call exec, summary and predict once each, in one order; a query that updates a cached field shows only when '
     'calls are repeated or interleaved.',
     ['src/ctsa.c', 'src/ctsa.h', 'header/ctsa.h'],
     [('predict/vcov/summary only read the object', 'src/ctsa.c *_predict, *_vcov, *_summary'),
      ('exec stores into result fields only', 'src/ctsa.c *_exec'), ('setters', 'src/ctsa.c *_set*')],
     state=[('model object', 'configuration fields and result fields', 'src/ctsa.h struct *_set')],
     observe=['fields of the model object'])
prop('C03', 'No hidden state: results depend only on the arguments and the object',
     "The library keeps no state between calls outside the objects it returns, and consults nothing but its arguments: no static "
     "or global variable is ever modified, and no public function reaches random numbers, the clock, the environment, files or "
     "locale. So equal calls give equal results in any order, and calls on different objects do not influence each other.",
     ['inputs', 'histories', 'schedules'], 'all call histories and any interleaving of calls on distinct objects',
     'The programs run one model per process, single-threaded; leftover static state or an environment dependence cannot show.',
     ['src/ctsa.c', 'src/stl.c', 'src/stats.c', 'src/optimc.c', 'src/filter.c', 'src/hsfft.c'],
     [('all working storage is local or heap, owned by the call', 'whole library'),
      ('constant tables are never written', 'src/stl.c, src/unitroot.c, src/wavefilt.c, src/pdist.c')],
     observe=['library globals', 'external functions reachable from the API'])
prop('C10', 'The public header describes the library exactly',
     "Every function the installed header declares exists in the library with exactly the declared parameter and result types and "
     "C linkage, and every object field the header exposes sits at the offset and has the type the library itself uses. A program "
     "compiled against the header alone therefore calls the library correctly and reads the results it thinks it reads.",
     ['programs', 'configurations'], 'every declared function, every exposed struct field, every call inside the library',
     'C links by name only: a mismatched prototype or a field moved in one of the two copies of the structures compiles and the '
     'programs that never touch that field still pass.',
     ['header/ctsa.h', 'src/ctsa.h', 'src/ctsa.c'],
     [('two hand-maintained copies of the object structures', 'header/ctsa.h, src/ctsa.h'),
      ('definitions', 'src/ctsa.c, src/talg.c, src/stats.c')],
     observe=['prototypes', 'struct offsets'])

exec(open(os.path.join(V, 'sa', 'props_more.py')).read()) if os.path.exists(os.path.join(V, 'sa', 'props_more.py')) else None
P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
