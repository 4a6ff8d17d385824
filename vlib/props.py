from .p_npy import *
from .p_tensor import *
from .p_npz import *
from .p_zip import *
from .p_misc import *
from .p_disk import *
from .p_custom import *
from .p_threads import *
from .p_forms import C23
from .p_faults import C26, C27
from .p_world import C28, C29
from .p_frame import C30

MC = "model_checking"
PROPS = {}
for _k, _v in list(globals().items()):
    if len(_k) == 3 and _k[0] == "C" and _k[1:].isdigit() and callable(_v):
        PROPS[_k] = (getattr(_v, "level", MC), _v)
