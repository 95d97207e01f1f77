"""External data: mapping to variables, values at a time, batches; file loader; saved results."""
from ..spec import compare
from .runtime import leaf, simulation

LEAVES = ('load', 'add_df', '_update_time_window', 'ExternalMapping._update_time_window')

def C32(ctx):
    """The chunk generator and the loader: which rows are read, kept and remembered."""
    compare(ctx, 'chunks', 'CSVDataLoader.load', '''
def load(self, df_id, t):
    if not self.is_chunks:
        return pd.read_csv(df_id, header=0)
    if df_id not in self._skiprows or t < self.t_last[df_id]:
        self._skiprows[df_id] = 0
    THEN()
    df = pd.concat(self._valid(df_id, pd.read_csv(df_id, header=0, skiprows=self._skiprows[df_id], chunksize=self.chunksize), t))
    self.t_last[df_id] = t
    return df
''', opaque=('_valid',), watch={('setitem', '_skiprows'), ('setitem', 't_last'), ('call', 'read_csv'), ('call', 'concat')})
    compare(ctx, 'chunks', 'CSVDataLoader._valid', '''
def _valid(self, df_id, chunks, t):
    for i, chunk in enumerate(chunks):
        if df_id not in self.t_ix:
            self.t_ix[df_id] = np.where(chunk.columns == 'time')[0][0]
        if not (chunk.iloc[:, self.t_ix[df_id]] <= t).all():
            self._skiprows[df_id] += i * self.chunksize
            yield chunk
            break
        yield chunk
''')
    compare(ctx, 'chunks', 'CSVDataLoader.__init__', '''
def __init__(self, chunksize=1000):
    self.chunksize = chunksize
    self._skiprows = {}
    self.t_last = {}
    self.t_ix = {}
    if self.chunksize:
        self.is_chunks = True
    else:
        self.is_chunks = False
''')
    compare(ctx, 'in memory', 'InMemoryDataLoader.load', '''
def load(self, df_id, t):
    return self.df
''')
    compare(ctx, 'in memory', 'InMemoryDataLoader.__init__', '''
def __init__(self, df):
    self.df = df
''', ignore={('store', 'chunksize')}, raises=False)
    remembered(ctx)


def records(ctx, r='record'):
    fields = ('data_frame_id', 'index_to_timestep_mapping', 'index_to_timestep_mapping_start', 'time_multiplier', 'dataframe_aliases')
    compare(ctx, r, 'ExternalMappingElement.__init__', 'def __init__(self, %s):\n' % ', '.join(fields)
            + ''.join('    self.%s = %s\n' % (x, x) for x in fields) + '    self.df = None\n')
    compare(ctx, r, 'ExternalMappingUnpacked.__init__', '''
def __init__(self, external_mappings=None, data_loader=None):
    self.data_loader = data_loader
    self.external_mappings = external_mappings
''')


def remembered(ctx):
    records(ctx)
    compare(ctx, 'columns', 'ExternalMappingElement.add_df', '''
def add_df(self, df):
    if self.df is not None:
        columns = self.df.columns
        self.df = df
        df.columns = columns
    else:
        self.df = df
''')


def C33(ctx):
    """Writing of saved blocks, buffer size, and what is handed to the recorder."""
    from .model import saving
    saving(ctx)
    simulation(ctx, 'recorder size', ('call', '_generate_compiled_model'))
    compare(ctx, 'file', 'LocalHistorian.store', '''
def store(self, df):
    out = df.df.rename(columns={column: alias for alias, column in df.aliases.items()})
    if os.path.isfile(self.filename):
        out.to_csv(self.filename, mode='a', header=False)
    else:
        out.to_csv(self.filename)
''', watch={('call', 'to_csv'), ('call', 'rename')})
    compare(ctx, 'size', 'Historian.get_historian_max_size', '''
def get_historian_max_size(self, number_of_timesteps, events_count):
    if self.max_size:
        return self.max_size
    return number_of_timesteps + events_count * self.timesteps_reserved_per_event + 1
''')
    compare(ctx, 'size', 'Historian.__init__', '''
def __init__(self, max_size, timesteps_reserved_per_event=100):
    self.max_size = max_size
    self.timesteps_reserved_per_event = timesteps_reserved_per_event
''')
    compare(ctx, 'size', 'InMemoryHistorian.__init__', '''
def __init__(self):
    self.max_size = 0
    self.timesteps_reserved_per_event = 100
''')
    compare(ctx, 'size', 'LocalHistorian.__init__', '''
def __init__(self, filename, max_size):
    self.max_size = max_size
    self.timesteps_reserved_per_event = 100
    self.filename = filename
''')


def mapped_slots(ctx):
    """the kernel slots of the mapped variables, and external data that are set later"""
    idx = '''
    n = 0
    slots = []
    for var in self.variables.values():
        if self.external_mappings.is_mapped_var(self.variables, var.id, self.system.id):
            slots.append(self.vars_ordered_values[var.id])
            n += 1
            self.external_mappings.add_df_idx(self.variables, var.id, self.system.id)
    self.number_of_external_mappings = n
    THEN()
    self.external_mappings.store_mappings()
    self.external_idx = np.array(slots, dtype=ANY)
'''
    W = {('call', 'add_df_idx'), ('call', 'store_mappings'), ('store', 'number_of_external_mappings'), ('store', 'external_idx')}
    O = ('is_mapped_var', 'add_df_idx', 'store_mappings')
    from .model import TAIL
    compare(ctx, 'slots', 'Model._assembly_tail', 'def _assembly_tail(self):\n' + idx, opaque=O + TAIL, watch=W, result=False,
            raises=False)
    compare(ctx, 'slots', 'Model.set_external_mappings', '''
def set_external_mappings(self, external_mappings, data_loader):
    new = [ExternalMappingUnpacked(external_mappings, data_loader)]
    self.system.check_external_mappings(new)
    THEN()
    self.external_mappings = ExternalMapping(self.system_external_mappings + new)
    self.is_external_data = True
    THEN()
''' + idx + '''
    nm = self.numba_model
    nm.external_idx = self.external_idx
    nm.external_mappings_time = self.external_mappings.external_mappings_time
    nm.number_of_external_mappings = n
    nm.external_mappings_numpy = self.external_mappings.external_mappings_numpy
    nm.external_df_idx = self.external_mappings.external_df_idx
    nm.approximation_type = self.external_mappings.interpolation_info
    nm.is_external_data = self.is_external_data
    nm.max_external_t = self.external_mappings.t_max
    nm.min_external_t = self.external_mappings.t_min
    THEN()
    nm.external_mappings_reinit()
    THEN()
    nm.map_external_data(0)
    THEN()
    more = self.external_mappings.load_new_external_data_batch(0)
    nm.is_external_data = more
    if more:
        em = self.external_mappings
        nm.update_external_data(em.external_mappings_numpy, em.external_mappings_time, em.t_max, em.t_min)
''', opaque=O + leaf() + ('check_external_mappings', 'ExternalMapping.__init__'), raises=False)


def C23(ctx):
    """From the mapping's paths and columns to kernel slots, and from data to values at a time."""
    mapped_slots(ctx)
    compare(ctx, 'columns', 'ExternalMapping.add_df_idx', '''
def add_df_idx(self, variables, var_id, system_id):
    for i, cols in enumerate(self.external_columns):
        for path in variables[var_id].path.path[system_id]:
            for j, col in enumerate(cols):
                if col == path:
                    self.external_df_idx.append((i, j))
                    self.interpolation_info.append(self.interpolation_type[i][j].value == InterpolationType.LINEAR.value)
                    return
''')
    compare(ctx, 'columns', 'ExternalMapping.is_mapped_var', '''
def is_mapped_var(self, variables, var_id, system_id):
    if not variables[var_id].global_var:
        for path in variables[var_id].path.path[system_id]:
            for cols in self.external_columns:
                for col in cols:
                    if col == path:
                        return True
''')
    compare(ctx, 'columns', 'ExternalMapping.__init__', '''
def __init__(self, external_mappings):
    for m in external_mappings:
        for e in m.external_mappings:
            e.add_df(m.data_loader.load(e.data_frame_id, e.index_to_timestep_mapping_start))
    a = []
    b = []
    c = []
    d = []
    for m in external_mappings:
        for e in m.external_mappings:
            a.append(list(e.dataframe_aliases.keys()))
            b.append([x[1] for x in list(e.dataframe_aliases.values())])
            c.append(e.df[[x[0] for x in list(e.dataframe_aliases.values())]].to_numpy(dtype=np.float64)[e.index_to_timestep_mapping_start:])
            d.append(e.time_multiplier * e.df[e.index_to_timestep_mapping].to_numpy(dtype=np.float64)[e.index_to_timestep_mapping_start:])
    self.external_columns = a
    self.interpolation_type = b
    self.external_mappings_numpy = np.array(c, dtype=np.float64)
    self.external_mappings_time = np.array(d, dtype=np.float64)
    self.external_mappings = external_mappings
    self.external_df_idx = []
    self.interpolation_info = []
    self._update_time_window()
''', opaque=('add_df', 'load', '_update_time_window'), seq=(('external_mappings_time', '_update_time_window'),))
    compare(ctx, 'columns', 'ExternalMapping.store_mappings', '''
def store_mappings(self):
    self.external_df_idx = np.array(self.external_df_idx, dtype=ANY)
    self.interpolation_info = np.array(self.interpolation_info, dtype=ANY)
''')
    batches(ctx)
    remembered(ctx)
    compare(ctx, 'values', 'CompiledModel.map_external_data', '''
def map_external_data(self, t):
    if self.is_external_data:
        v = np.zeros(self.number_of_external_mappings)
        for i in range(self.number_of_external_mappings):
            d = self.external_df_idx[i][0]
            k = self.external_df_idx[i][1]
            if self.approximation_type[i]:
                v[i] = np.interp(t, self.external_mappings_time[d], self.external_mappings_numpy[d, :, k])
            else:
                v[i] = step_approximation(t, self.external_mappings_time[d], self.external_mappings_numpy[d, :, k])
        if not np.array_equal(v, self.previous_external_mappings):
            self.previous_external_mappings = v
            for i, value in enumerate(v):
                self.write_variables(value, self.external_idx[i])
            THEN()
            self.func(t, self.get_states())
''', opaque=leaf('map_external_data') + ('step_approximation',), watch={('setitem', 'zeros()'), ('call', 'write_variables'), ('call', 'func'),
                                                          ('store', 'previous_external_mappings')})
    compare(ctx, 'values', 'step_approximation', '''
def step_approximation(t, time_array, data_array):
    return data_array[max(np.searchsorted(time_array, t + ANY, side='right') - 1, 0)]
''')
    compare(ctx, 'values', 'CompiledModel.external_mappings_reinit', '''
def external_mappings_reinit(self):
    self.previous_external_mappings = np.full(self.number_of_external_mappings, np.nan)
''')
    compare(ctx, 'unknown', 'Subsystem.check_external_mappings', '''
def check_external_mappings(self, external_mappings):
    for m in external_mappings:
        for e in m.external_mappings:
            for path in e.dataframe_aliases:
                if not self.find_variable(path):
                    raise ValueError()
''', opaque=('find_variable',))
    compare(ctx, 'all subsystems', 'Subsystem._get_external_mappings', '''
def _get_external_mappings(self):
    out = []
    if self.external_mappings is not None:
        out.append(self.external_mappings)
    for item in self.registered_items.values():
        if isinstance(item, Subsystem):
            out.extend(item._get_external_mappings())
    return out
''', opaque=('Subsystem._get_external_mappings',))
    from .errors import found
    found(ctx)
    compare(ctx, 'own mappings', 'Subsystem.__init__', '''
def __init__(self, tag, external_mappings=None, data_loader=None, run_after_solve=None, post_step=None):
    self.external_mappings = ExternalMappingUnpacked(external_mappings, data_loader) if external_mappings else None
''', opaque=('_DictWrapper.__init__', 'ConnectorItem.__init__', 'ExternalMappingUnpacked.__init__'), watch={('store', 'external_mappings')})


def batches(ctx):
    batch = '''
def load_new_external_data_batch(self, t):
    self.external_mappings_numpy = ANY
    self.external_mappings_time = ANY
    for m in self.external_mappings:
        for e in m.external_mappings:
            df = m.data_loader.load(e.data_frame_id, t / e.time_multiplier)
            if df.empty:
                return False
            e.add_df(df)
    THEN()
    c = []
    d = []
    for m in self.external_mappings:
        for e in m.external_mappings:
            c.append(e.df[[x[0] for x in list(e.dataframe_aliases.values())]].to_numpy(dtype=np.float64)[e.index_to_timestep_mapping_start:])
            d.append(e.time_multiplier * e.df[e.index_to_timestep_mapping].to_numpy(dtype=np.float64)[e.index_to_timestep_mapping_start:])
    self.external_mappings_numpy = np.array(c, dtype=np.float64)
    self.external_mappings_time = np.array(d, dtype=np.float64)
    self._update_time_window()
    return True
'''
    compare(ctx, 'batch', 'ExternalMapping.load_new_external_data_batch', [batch, batch.replace('self.external_mappings_numpy = ANY', 'pass')
            .replace('self.external_mappings_time = ANY', 'pass')], opaque=('add_df', 'load', '_update_time_window'), seq=(('external_mappings_time', '_update_time_window'),))
    compare(ctx, 'window', 'ExternalMapping._update_time_window', '''
def _update_time_window(self):
    self.t_max = np.min([np.max(x) for x in self.external_mappings_time])
    self.t_min = np.max([np.min(x) for x in self.external_mappings_time])
''')
