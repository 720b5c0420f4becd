"""A second instance of the schema table and of the generators bound to it."""
import importlib.util, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))


def _load(name, alias):
    sp = importlib.util.spec_from_file_location(alias, os.path.join(HERE, name + '.py'))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def fork(alias, setup):
    """setup(schema module) edits the copy -> (schema, streams, values)"""
    import schema  # noqa: the original stays in sys.modules
    X = _load('schema', alias + '_schema')
    setup(X)
    X.M_ = {m.name: m for m in X.msgs}
    X.ORDER = [m.name for m in X.msgs]
    old = {k: sys.modules.get(k) for k in ('schema', 'streams', 'values')}
    try:
        sys.modules['schema'] = X
        st = _load('streams', alias + '_streams')
        sys.modules['streams'] = st
        va = _load('values', alias + '_values')
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return X, st, va
