from .. import typeof  # noqa
