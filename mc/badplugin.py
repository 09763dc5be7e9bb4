"""A plugin module that cannot be used."""
import nosuchmodule_for_sure


class Bad(object):
    pass
