"""What each chart-based check generates and runs."""
from charts import EXC, EXCLOW, EXCHI

# families, configurations, charts (quick, thorough), runs: (mode, profile, episodes quick, thorough)
# N default, R relaxed transition context, V native RTTI, D NDEBUG, T without threads
N4 = ['N', 'R', 'T', 'V', 'N', 'D']
POSTY = 'post=300,postbudget=14,wdefer=15'
PLANS = {
    'C01': dict(fams=['mixed', 'static', 'evb', 'small', 'exh', 'ortho', 'mixed', 'static', 'evb', 'small', 'exh', 'broad'], cfgs=N4,
                runs=[('model', '', 700, 6000), ('model', 'wforward=70,wtrans=15,' + EXCLOW, 400, 4000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, reacting state, reaction decision or list entry, event type, position in the search)'),
    'C02': dict(fams=['ortho', 'mixed', 'deep', 'term', 'wide', 'noexit', 'ortho', 'mixed', 'deep', 'term', 'broad', 'noexit'], cfgs=N4,
                runs=[('model', '', 800, 7000), ('model', EXC, 300, 3000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, transition source, destination) actually taken'),
    'C03': dict(fams=['ortho', 'mixed', 'deep', 'shist', 'wide', 'dhist', 'ortho', 'mixed', 'deep', 'shist', 'broad', 'dhist'], cfgs=N4,
                runs=[('model', '', 800, 7000), ('model', EXC, 300, 3000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, transition source, destination) actually taken'),
    'C04': dict(fams=['act', 'ortho', 'deep', 'static', 'act', 'noexit'], cfgs=['N', 'R', 'R', 'T', 'RV', 'RD'],
                runs=[('model', '', 800, 7000), ('model', EXC, 400, 4000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, source, destination, action context) of executed actions'),
    'C05': dict(fams=['mixed', 'small', 'defer', 'ortho', 'term', 'shist'], cfgs=N4,
                runs=[('model', POSTY, 700, 6000), ('model', 'post=250,opost=40,tunc=120,' + EXCLOW, 400, 4000), ('model', 'post=200,' + EXC, 300, 2500), ('model', 'post=30,burst=12,opost=20,ops=15,wterm=1,' + EXCLOW, 100, 1000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, event type, provenance, queue length) of dispatches'),
    'C06': dict(fams=['defer', 'defer', 'small', 'mixed', 'static', 'term'], cfgs=N4, extra=dict(p_defer=0.4),
                runs=[('model', 'wdefer=40,post=200,oterm=1', 800, 7000), ('model', 'wdefer=35,post=200,' + EXC, 400, 4000), ('model', 'wdefer=50,post=30,burst=12,opost=20,ops=15,wterm=1,' + EXCLOW, 100, 1000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, deferring state, event type, queue lengths) of deferrals and re-dispatches'),
    'C07': dict(fams=['term', 'term', 'mixed', 'ortho', 'static', 'deep', 'term', 'term', 'mixed', 'broad', 'static', 'deep'], cfgs=N4, extra=dict(p_term=0.4),
                runs=[('model', 'wterm=40,oterm=10,orecreate=4,oinit=10', 800, 7000), ('model', 'wterm=30,oterm=10,orecreate=4,post=200,' + EXC, 400, 4000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, terminated state or machine call, queue lengths)'),
    'C08': dict(fams=['ortho', 'mixed', 'term', 'evb', 'wide', 'deep', 'ortho', 'mixed', 'term', 'evb', 'broad', 'deep'], cfgs=N4,
                runs=[('model', 'opquery=1000,query=300', 500, 4000), ('model', 'opquery=1000,query=200,' + EXC, 300, 3000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, observer, target type) queried while stable'),
    'C09': dict(fams=['shist', 'shorth', 'shist', 'mixed', 'shorth', 'dhist', 'shist', 'shorth', 'shist', 'mixed', 'histbroad', 'dhist'], cfgs=N4,
                runs=[('model', 'wtrans=90,post=50,clear=30,oclear=4', 900, 8000), ('model', 'wtrans=80,clear=20,' + EXC, 400, 4000), ('restart', '', 150, 1500)],
                rule='random chart x random history; counted: distinct (chart, active configuration, region, recorded state or default, destination) of shallow history entries'),
    'C10': dict(fams=['dhist', 'dhist2', 'dhist', 'dhist2', 'dhist', 'mixed'], cfgs=N4,
                runs=[('model', 'wtrans=90,post=50,clear=30,oclear=4', 900, 8000), ('model', 'wtrans=80,clear=20,' + EXC, 400, 4000), ('restart', '', 150, 1500)],
                rule='random chart x random history; counted: distinct (chart, active configuration, region, recorded chain or default, destination) of deep history entries'),
    'C11': dict(fams=['mixed', 'ortho', 'shist', 'term', 'dhist', 'defer', 'mixed', 'broad', 'shist', 'term', 'dhist', 'defer'], cfgs=N4, translators=(0,),
                runs=[('model', EXC, 700, 6000), ('model', 'post=200,' + EXCHI, 400, 4000), ('model', 'wterm=30,oterm=12,oinit=12,' + EXCLOW, 300, 3000)],
                rule='random chart with the null translator x random history with throwing callbacks; counted: distinct (chart, active configuration, callback kind, state) that threw'),
    'C12': dict(fams=['exh', 'exhortho', 'exh', 'exhortho', 'exh', 'shist', 'exh', 'exhortho', 'exh', 'exhbroad', 'exh', 'shist'], cfgs=N4, translators=(1, 2, 1), extra=dict(p_exh=0.85),
                runs=[('model', EXC, 700, 6000), ('model', 'post=200,hdefer=15,' + EXCHI, 500, 4000), ('model', 'wterm=30,oterm=12,oinit=12,' + EXCLOW, 300, 3000)],
                rule='random chart with a translating translator x random history with throwing callbacks; counted: distinct (chart, active configuration, where the exception was thrown, where its search started, who handled it)'),
    'C13': dict(fams=['ortho', 'noexit', 'mixed', 'exh', 'term', 'deep', 'broad', 'noexit', 'mixed', 'exh', 'term', 'deep'], cfgs=N4,
                runs=[('model', 'orecreate=6,oterm=8,oinit=8', 700, 6000), ('model', 'texit=60,post=200,orecreate=4,oterm=6', 500, 4000), ('model', EXC, 300, 3000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, exited state, outcome of exit()) and destructions without exit()'),
    'C14': dict(fams=['defer', 'mixed', 'small', 'evb', 'term', 'shist'], cfgs=N4,
                runs=[('model', 'post=300,wdefer=30,held=300,heap=500', 700, 6000), ('model', 'post=200,wdefer=30,held=300,' + EXC, 400, 4000), ('model', 'wdefer=40,post=30,burst=12,opost=20,ops=15,wterm=1,held=300', 80, 800)],
                rule='random chart x random history; counted: distinct (chart, active configuration, posted and deferred queue lengths) at which event lifetimes were reconciled'),
    'C15': dict(fams=['mixed', 'ortho', 'shist', 'dhist', 'defer', 'term', 'exh', 'noexit'], cfgs=N4,
                runs=[('model', 'orecreate=6,wdefer=20,post=200,' + EXC, 600, 6000), ('model', 'orecreate=8,' + EXCHI, 400, 4000), ('alloc', '', 12, 100), ('restart', EXCLOW, 100, 1000)],
                rule='random chart x random history under AddressSanitizer, LeakSanitizer and UBSan; counted: distinct (chart, active configuration, queue lengths) at quiescent points'),
    'C16': dict(fams=['mixed', 'exh', 'act', 'defer', 'term', 'exhortho'], cfgs=N4,
                runs=[('model', 'trigq=400,post=200', 600, 5000), ('model', 'trigq=400,post=150,' + EXC, 500, 5000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, callback kind, state, trigger present) at which triggering_event() was compared'),
    'C18': dict(fams=['deep', 'ortho', 'mixed', 'evb', 'noexit', 'exh'], cfgs=N4, extra=dict(selfctx=1),
                runs=[('model', 'ctx=900', 500, 5000), ('model', 'ctx=900,' + EXC, 300, 3000)],
                rule='random chart x random history; counted: distinct (chart, active configuration, inner state, requested context, access form) compared by address'),
    'C19': dict(fams=['mixed', 'shist', 'defer', 'exh', 'term', 'dhist'], cfgs=N4,
                runs=[('restart', '', 250, 2500), ('restart', 'post=200,wdefer=20,' + EXC, 300, 3000), ('model', 'oinit=20,oterm=10,' + EXCLOW, 500, 5000)],
                rule='history A, end (terminate, termination reaction, exception or initiate on the running machine), then history B compared with B on a fresh machine; counted: distinct restart situations'),
    'C20': dict(fams=['mixed', 'shist', 'defer', 'exh', 'ortho', 'dhist'], cfgs=N4, alloc=(1,),
                runs=[('alloc', 'ops=25,post=200,wdefer=20', 14, 150), ('alloc', 'ops=12,clear=100,wtrans=90', 14, 150), ('model', EXC, 250, 3000)],
                rule='random history replayed once per allocation with that allocation failing; counted: distinct (history, failing allocation)'),
    'C26': dict(fams=['mixed', 'shist', 'defer', 'exh', 'dhist', 'small'], cfgs=N4,
                runs=[('instances', '', 100, 1200), ('instances', 'post=200,wdefer=20,' + EXC, 100, 1200)],
                rule='interleaved (also nested) histories of several instances, each compared with the same history run alone; counted: distinct instances compared'),
}
ASSUME = ['user callbacks follow the documented rules (no posting from destructors, no re-entrant process_event, react functions return what they were told)',
          'states, regions, reaction lists and histories are bounded by the generator (see DESIGN.md)']
