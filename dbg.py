import sys; sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from engine import runner; runner.setup_symbolic()
from engine import ctx as C, values as V
from engine.solver import Solver
from engine.api import SymH
import traceback
m,cs=runner.load_cases(sys.argv[1],'quick')
c=[c for c in cs if c.name==sys.argv[2]][0]
cx=C.Ctx(Solver(timeout_ms=20000),max_paths=int(sys.argv[3]) if len(sys.argv)>3 else 3)
def body():
    try: c.fn(SymH(cx),*c.args)
    except C.Gap: traceback.print_exc(); raise
cx.explore(body)
print(cx.paths, cx.incomplete, [(v.label,v.detail) for v in cx.violations])
