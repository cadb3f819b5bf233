"""Running macro programs from source text."""
import mcpyrate.quotes
from mcpyrate.compiler import run, create_module
from mcpyrate.core import MacroApplicationError
from vp.lang import Boom

class Program:
    """A macro program, expanded and executed in a module of its own; L and fail write the trace."""
    def __init__(self, src, name="vp_prog", **names):
        # mcpyrate caches captured values by the id of a bytes object that dies with its module
        mcpyrate.quotes._lookup_cache.clear()
        self.src, self.trace = src, []
        self.mod = create_module(name)
        def L(i, v=None): self.trace.append((i, v)); return v
        def fail(i): self.trace.append(("fail", i)); raise Boom(i)
        self.mod.__dict__.update({"L": L, "L_": L, "fail": fail, "Boom": Boom, **names})
        try: run(src, self.mod)
        except MacroApplicationError as e:
            while isinstance(e, MacroApplicationError) and e.__cause__: e = e.__cause__
            raise e
    def __getattr__(self, k): return getattr(self.mod, k)

def res(f, *a):
    try: return ("ok", f(*a))
    except Boom as e: return ("boom", e.args)
    except OverflowError: raise
    except Exception as e: return ("exc", type(e).__name__, str(e)[:200])
