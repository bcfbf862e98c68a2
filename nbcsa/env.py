"""Building an interpreter over /repo's sources."""
import os, sys
sys.setrecursionlimit(30000)
from . import interp, models, terms as t
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NBCSA_REPO', '/repo')
def make(extra=()):
    S = os.path.join(HERE, 'stubs')
    I = interp.Interp([('nbc', REPO), ('__stub_io', S), ('__stub_fn', S), ('asyncore', S), ('threading', S), ('spec', HERE)] + list(extra))
    I.ctx = I._topctx()
    models.load_prelude(I, S)
    I.exits = []
    return I
