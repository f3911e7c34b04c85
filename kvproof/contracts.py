from .specs import CONTRACTS     # noqa
from . import specs_buf     # noqa
from . import specs_client     # noqa
from . import specs_io     # noqa
from . import specs_file     # noqa
from . import specs_sort     # noqa
from . import specs_mpi     # noqa
from . import specs_print     # noqa
from . import specs_exch     # noqa
from . import specs_set     # noqa
