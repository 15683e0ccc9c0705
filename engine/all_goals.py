from . import goals_validate  # noqa
from . import goals_items  # noqa
from . import goals_top  # noqa
from . import goals_report  # noqa
from . import goals_utils  # noqa
from . import goals_cli  # noqa
from . import goals_cache  # noqa
from . import goals_nxdl  # noqa
from . import goals_tree  # noqa
from . import goals_schema  # noqa
