"""Makes the pre-installed z3 bindings importable from the interpreter the library itself runs in."""
import importlib.util, sys
_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
if "z3" not in sys.modules:
    spec = importlib.util.spec_from_file_location("z3", _P + "/__init__.py", submodule_search_locations=[_P])
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)
import z3
