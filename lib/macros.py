"""Expand and run macro-enabled programs against the working tree's macro expanders."""
import sys
import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as _run, create_module
import mcpyrate.quotes as _quotes

# mcpyrate caches hygienically captured values under id(<constant of the code object>), so a cache entry
# outlives the code of a discarded module and another constant can get its id. The programs of one run come
# from many short-lived modules, which no real program does: keep every looked-up constant alive.
_constants = {}
_lookup_value = _quotes.lookup_value
def _keeping_lookup_value(key):
    _constants[id(key[1])] = key[1]
    return _lookup_value(key)
_quotes.lookup_value = _keeping_lookup_value

import unpythonic.syntax  # noqa: F401  (expanded once in the parent process, inherited by the workers)

class ExpansionError(Exception):
    pass

def module(src, **given):
    """Run macro-enabled source in a fresh module; returns its namespace (dict)."""
    m = create_module()
    m.__dict__.update(given)
    try:
        _run(src, m)
    except Exception as e:
        c = e
        while c.__cause__ is not None or (c.__context__ is not None and not c.__suppress_context__):
            c = c.__cause__ or c.__context__
        raise ExpansionError(f"{type(c).__name__}: {str(c)[:200]}") from None
    finally:
        sys.modules.pop(m.__name__, None)
    return m.__dict__

def programs(header, defs, names, **given):
    """Compile many programs at once: `defs` is a list of source texts each defining `names[i]`.
    Returns a list of functions, or of ExpansionError instances for the programs that do not compile."""
    try:
        ns = module(header + "\n" + "\n".join(defs), **given)
        return [ns[n] for n in names]
    except ExpansionError:
        if len(defs) == 1:
            raise
    out = []
    for d, n in zip(defs, names):
        try:
            out.append(module(header + "\n" + d, **given)[n])
        except ExpansionError as e:
            out.append(e)
    return out
