"""Simulation runtime: Simulation, CompiledModel, solver interface, event factory."""
from .model import ASSEMBLY
from ..spec import compare

# 'all rows' leaves: primitives with a rule of their own
LEAF = ('historian_reinit', 'external_mappings_reinit', 'map_external_data', 'func', 'CompiledModel.get_states', 'read_variables',
        'is_external_data_update_needed', 'load_new_external_data_batch', 'update_external_data', 'create_historian_df',
        'write_variables', 'is_store_required', 'run_post_step',
        'CompiledModel.historian_update', 'CompiledModel.set_states')


def leaf(*but):
    return tuple(x for x in LEAF if x not in but)


HANDLER = '''
def handle_solve_event(self, interface, event_id, t):
    if event_id == SolveEvent.Historian or event_id == SolveEvent.HistorianAndExternalUpdate:
        self._model.create_historian_df()
        THEN()
        self._nm.historian_reinit()
    if event_id == SolveEvent.ExternalDataUpdate or event_id == SolveEvent.HistorianAndExternalUpdate:
        more = self._model.external_mappings.load_new_external_data_batch(t)
        em = self._model.external_mappings
        if t > em.t_max:
            raise ValueError()
        self._nm.is_external_data = more
        self._nm.update_external_data(em.external_mappings_numpy, em.external_mappings_time, em.t_max, em.t_min)
'''

POST_STEP = '''
def post_step(self, t, y):
    nm = self.model.numba_model
    nm.run_post_step()
    nm.map_external_data(t)
    full = nm.is_store_required()
    out = nm.is_external_data_update_needed(t)
    if full and out:
        return SolveEvent.HistorianAndExternalUpdate
    if full:
        return SolveEvent.Historian
    if out:
        return SolveEvent.ExternalDataUpdate
    return SolveEvent.NoneEvent
'''

HIST_UPDATE = '''
def historian_update(self, t, y):
    self.model.numba_model.historian_update(t)
    if self.model.numba_model.is_store_required():
        return SolveEvent.Historian
    return SolveEvent.NoneEvent
'''

RECORD = '''
def historian_update(self, time):
    self.historian_data[0, self.historian_ix] = time
    self.historian_data[1:, self.historian_ix] = self.read_variables()
    self.historian_ix = self.historian_ix + 1
'''

REINIT = '''
def historian_reinit(self):
    data = np.empty((len(self.init_vars) + 1, self.historian_max_size), dtype=np.float64)
    data.fill(np.nan)
    self.historian_data = data
    self.historian_ix = 0
'''

COMPLETE = '''
def solve(self):
    self.solver.solve(self.time)
    THEN()
    self.model.create_historian_df()
    THEN()
    self.model.numba_model.historian_reinit()
'''

UPDATE_EXT = '''
def update_external_data(self, data, times, t_max, t_min):
    self.external_mappings_time = times
    self.external_mappings_numpy = data
    self.max_external_t = t_max
    self.min_external_t = t_min
'''

NEEDED = '''
def is_external_data_update_needed(self, t):
    return bool(self.is_external_data and (t > self.max_external_t or t < self.min_external_t))
'''

MAP_EXTERNAL = '''
def map_external_data(self, t):
    if self.is_external_data:
        values = np.zeros(self.number_of_external_mappings)
        for i in range(self.number_of_external_mappings):
            f, c = self.external_df_idx[i][0], self.external_df_idx[i][1]
            if self.approximation_type[i]:
                values[i] = np.interp(t, self.external_mappings_time[f], self.external_mappings_numpy[f, :, c])
            else:
                values[i] = step_approximation(t, self.external_mappings_time[f], self.external_mappings_numpy[f, :, c])
        if not np.array_equal(values, self.previous_external_mappings):
            self.previous_external_mappings = values
            for i, value in enumerate(values):
                self.write_variables(value, self.external_idx[i])
            THEN()
            self.func(t, self.get_states())
'''


FULL = '''
def is_store_required(self):
    return self.historian_ix >= self.historian_max_size
'''


SIMULATION = '''
def __init__(self, model, t_start=0, t_stop=20000, num=1000, start_datetime=ANY, **kwargs):
    self.model = model
    self.time = %s
    if model.numba_model:
        self.reset(t_start)
    else:
        model._generate_compiled_model(t_start, len(self.time))
    out = generate_numerous_engine_solver_model(model)
    self.solver = NumerousSolver(model=out[0], event_handler=out[1], use_jit=model.use_llvm, **kwargs)
'''
TIMES = ('np.linspace(t_start, t_stop, num + 1, retstep=True)[0]', 'np.linspace(t_start, t_stop, num + 1)')


def simulation(ctx, r, *watch, seq=()):
    compare(ctx, r, 'Simulation.__init__', [SIMULATION % t for t in TIMES], raises=False, result=False, watch=set(watch), seq=seq,
            opaque=('Simulation.reset', '_generate_compiled_model', 'generate_numerous_engine_solver_model'))


def C11(ctx):
    from .kernel import constructed
    from .model import INIT
    compare(ctx, 'post-step', 'CompiledModel.run_post_step', '''
def run_post_step(self):
    for f in self.post_step:
        f()
''')
    compare(ctx, 'post-step', 'NumerousEngineModelInterface.post_step', '''
def post_step(self, t, y):
    self.model.numba_model.run_post_step()
''', opaque=leaf(), watch={('call', 'run_post_step')}, result=False, raises=False)
    constructed(ctx, {'post_step': 'self.post_step'})
    compare(ctx, 'declared hooks', 'Model.__init__', '''
def __init__(self, system):
    self.run_after_solve = system.get_run_after_solve()
    self.post_step = system.get_post_step()
''', opaque=INIT, watch={('store', 'run_after_solve'), ('store', 'post_step'), ('call', 'get_run_after_solve'), ('call', 'get_post_step')},
            raises=False)
    compare(ctx, 'declared hooks', 'Subsystem.__init__', '''
def __init__(self, tag, run_after_solve=None, post_step=None):
    self.run_after_solve = run_after_solve if run_after_solve is not None else []
    self.post_step = post_step if post_step is not None else []
''', watch={('store', 'run_after_solve'), ('store', 'post_step')}, opaque=('ConnectorItem.__init__', 'Item.__init__'), raises=False)
    compare(ctx, 'after-solve', 'Simulation.solve', '''
def solve(self):
    self.solver.solve(self.time)
    THEN()
    self.model.create_historian_df()
    THEN()
    for f in self.model.run_after_solve:
        f()
''', opaque=leaf(), result=False)


def C13(ctx):
    compare(ctx, 'record', 'CompiledModel.historian_update', RECORD, opaque=leaf('CompiledModel.historian_update'))
    compare(ctx, 'full', 'CompiledModel.is_store_required', FULL, opaque=leaf('is_store_required'))
    compare(ctx, 'empty', 'CompiledModel.historian_reinit', REINIT, opaque=leaf('historian_reinit'))
    compare(ctx, 'interrupt', 'NumerousEngineModelInterface.historian_update', HIST_UPDATE, opaque=leaf(),
            what='interface historian_update')
    compare(ctx, 'interrupt', 'NumerousEngineModelInterface.post_step', POST_STEP, opaque=leaf(),
            watch=(), ignore={('call', 'run_post_step'), ('call', 'map_external_data')})
    compare(ctx, 'record-event', 'NumerousEngineModelInterface.post_state_event', '''
def post_state_event(self, t, y, event_id):
    self.model.numba_model.historian_update(t)
    if self.model.numba_model.is_store_required():
        return SolveEvent.Historian
    return SolveEvent.NoneEvent
''', opaque=leaf())
    compare(ctx, 'record-event', 'NumerousEngineModelInterface.post_time_event', '''
def post_time_event(self, t, y):
    self.model.numba_model.historian_update(t)
''', opaque=leaf(), result=False)
    compare(ctx, 'flush', 'NumerousEngineEventHandler.handle_solve_event', '''
def handle_solve_event(self, interface, event_id, t):
    if event_id == SolveEvent.Historian or event_id == SolveEvent.HistorianAndExternalUpdate:
        self._model.create_historian_df()
        THEN()
        self._nm.historian_reinit()
''', opaque=leaf(), raises=False)
    simulation(ctx, 'recorder size', ('call', '_generate_compiled_model'))
    compare(ctx, 'flush-end', 'Simulation.solve', COMPLETE, opaque=leaf(), result=False)
    from .model import saving
    saving(ctx)


def C16(ctx):
    simulation(ctx, 'second simulation', ('call', 'reset'), ('store', 'model'))
    compare(ctx, 'initial values', 'Model.assemble', '''
def assemble(self):
    self._initial_variables_dict = {k: v.value for k, v in self.variables.items() if not v.global_var}
''', opaque=ASSEMBLY, result=False, raises=False, watch={('store', '_initial_variables_dict')})
    # the entry point a user calls; leaves are the kernel access primitives and the external data loader
    compare(ctx, 'reset', 'Simulation.reset', '''
def reset(self, t_start):
    nm = self.model.numba_model
    for k in self.model._initial_variables_dict:
        self.model.variables[k].value = self.model._initial_variables_dict[k]
        self.model.var_write(self.model._initial_variables_dict[k], self.model.vars_ordered_values[k])
    self.model.historian_df = None
    nm.historian_reinit()
    nm.external_mappings_reinit()
    if nm.is_external_data_update_needed(t_start):
        nm.is_external_data = self.model.external_mappings.load_new_external_data_batch(t_start)
    if nm.is_external_data:
        em = self.model.external_mappings
        nm.update_external_data(em.external_mappings_numpy, em.external_mappings_time, em.t_max, em.t_min)
    nm.map_external_data(t_start)
    nm.func(t_start, nm.get_states())
''', opaque=leaf(), seq=(('value', 'map_external_data'), ('var_write', 'map_external_data'), ('value', 'func'),
                         ('var_write', 'func'), ('external_mappings_reinit', 'map_external_data'),
                         ('map_external_data', 'func'), ('load_new_external_data_batch', 'update_external_data'),
                         ('update_external_data', 'map_external_data')))
    compare(ctx, 'empty', 'CompiledModel.historian_reinit', REINIT, opaque=leaf('historian_reinit'))
    compare(ctx, 'forget-applied', 'CompiledModel.external_mappings_reinit', '''
def external_mappings_reinit(self):
    self.previous_external_mappings = np.full(self.number_of_external_mappings, np.nan)
''', opaque=leaf('external_mappings_reinit'))


def C24(ctx):
    compare(ctx, 'before-step', 'NumerousEngineModelInterface.pre_step', '''
def pre_step(self, t, y):
    self.model.numba_model.map_external_data(t)
''', opaque=leaf())
    compare(ctx, 'after-step', 'NumerousEngineModelInterface.post_step', POST_STEP, opaque=leaf(),
            ignore={('call', 'run_post_step')})
    compare(ctx, 'window', 'CompiledModel.is_external_data_update_needed', NEEDED,
            opaque=leaf('is_external_data_update_needed'))
    compare(ctx, 'reload', 'NumerousEngineEventHandler.handle_solve_event', HANDLER, opaque=leaf())
    compare(ctx, 'take-effect', 'CompiledModel.update_external_data', UPDATE_EXT, opaque=leaf('update_external_data'))
    from .data import batches, mapped_slots, remembered
    batches(ctx)
    remembered(ctx)
    mapped_slots(ctx)


def C30(ctx):
    compare(ctx, 'full', 'CompiledModel.is_store_required', FULL, opaque=leaf('is_store_required'))
    compare(ctx, 'window', 'CompiledModel.is_external_data_update_needed', NEEDED,
            opaque=leaf('is_external_data_update_needed'))
    compare(ctx, 'handled', 'NumerousEngineEventHandler.handle_solve_event', HANDLER, opaque=leaf(), raises=False)
    compare(ctx, 'reason', 'NumerousEngineModelInterface.post_step', POST_STEP, opaque=leaf())
    compare(ctx, 'reason', 'NumerousEngineModelInterface.historian_update', HIST_UPDATE, opaque=leaf(),
            what='interface historian_update')
    forwards(ctx)
    compare(ctx, 'one step', 'Simulation.step_solve', ['''
def step_solve(self, t_start, step_size):
    return self.solver.solver_step(t_start, step_size)
''', '''
def step_solve(self, t_start, step_size):
    t, status = self.solver.solver_step(t_start, step_size)
    return t, status
'''])
    simulation(ctx, 'solver', ('call', 'generate_numerous_engine_solver_model'), ('call', 'NumerousSolver'), ('store', 'solver'),
               seq=(('_generate_compiled_model', 'generate_numerous_engine_solver_model'),))
    compare(ctx, 'before step', 'NumerousEngineModelInterface.pre_step', '''
def pre_step(self, t, y):
    self.model.numba_model.map_external_data(t)
''', opaque=leaf())
    compare(ctx, 'after event', 'NumerousEngineModelInterface.post_state_event', '''
def post_state_event(self, t, y, event_id):
    nm = self.model.numba_model
    nm.historian_update(t)
    return SolveEvent.Historian if nm.is_store_required() else SolveEvent.NoneEvent
''', opaque=leaf())
    compare(ctx, 'after event', 'NumerousEngineModelInterface.post_time_event', '''
def post_time_event(self, t, y):
    self.model.numba_model.historian_update(t)
''', opaque=leaf())


def forwards(ctx):
    for m, args, call, ret in (
            ('get_states', '', 'get_states()', True), ('set_states', ', states', 'set_states(states)', False),
            ('_get_variables', '', 'read_variables()', True),
            ('_write_variables', ', value, idx', 'write_variables(value, idx)', False)):
        f = ctx.w.func('NumerousEngineModelInterface.' + m, True)
        if f is None:
            continue
        compare(ctx, 'forward', 'NumerousEngineModelInterface.' + m, '''
def %s(self%s):
    %sself.model.numba_model.%s
''' % (m, args, 'return ' if ret else '', call), opaque=leaf(), result=ret)
    compare(ctx, 'forward', 'NumerousEngineModelInterface.get_deriv', ['''
def get_deriv(self, t, y):
    return self.model.numba_model.func(t, self.model.numba_model.get_states())
''', '''
def get_deriv(self, t, y):
    return self.model.numba_model.func(t, y)
'''], opaque=leaf())


def C39(ctx):
    """Every place that records a row first evaluates the kernel for the time of the row and the states the model has then."""
    for m, args in (('historian_update', 't, y'), ('post_state_event', 't, y, event_id'), ('post_time_event', 't, y')):
        compare(ctx, 'evaluate first', 'NumerousEngineModelInterface.' + m, '''
def %s(self, %s):
    nm = self.model.numba_model
    nm.func(t, nm.get_states())
    THEN()
    nm.historian_update(t)
''' % (m, args), opaque=leaf(), watch={('call', 'func'), ('call', 'CompiledModel.historian_update'), ('call', 'historian_update'),
                                        ('call', 'set_states'), ('call', 'write_variables'), ('call', 'map_external_data'),
                                        ('call', 'CompiledModel.set_states')}, result=False)
    compare(ctx, 'evaluation', 'CompiledModel.func', """
def func(self, t, y):
    self.global_vars[0] = t
    THEN()
    return self.compiled_compute(y)
""", opaque=leaf('func'))
    compare(ctx, 'row', 'CompiledModel.historian_update', RECORD, opaque=leaf('CompiledModel.historian_update'))
    compare(ctx, 'inputs', 'NumerousEngineModelInterface.pre_step', """
def pre_step(self, t, y):
    self.model.numba_model.map_external_data(t)
""", opaque=leaf())
    compare(ctx, 'inputs', 'NumerousEngineModelInterface.post_step', """
def post_step(self, t, y):
    self.model.numba_model.map_external_data(t)
""", opaque=leaf(), watch={('call', 'map_external_data')}, result=False)
