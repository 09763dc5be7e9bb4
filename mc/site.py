"""A daemon with its configuration directory and the home directories of the
users, all in the scratch directory."""
import builtins
import contextlib
import io
import os

from mc import core, env

_real = {}


def root():
    return env.scratch("fsroot")


class Homes(object):
    """Everything the code does with a preferences path goes to the scratch
    directory, and is recorded.  Nothing below the real /home is touched."""

    def __init__(self):
        self.opened = []

    def map(self, path):
        if isinstance(path, bytes):
            text = path.decode("latin-1")
        elif isinstance(path, str):
            text = path
        else:
            return path
        if text.startswith(core.SCRATCH):
            return path
        if ".spamassassin" in text or text.startswith("/home/"):
            norm = os.path.normpath(os.path.join("/", text))
            return root() + norm
        return path

    @contextlib.contextmanager
    def installed(self):
        saved = (os.stat, os.lstat, os.access, os.listdir, builtins.open, io.open, os.open)
        me = self

        def wrap(func, record=False):
            def wrapped(path, *a, **kw):
                new = me.map(path)
                if record and new is not path:
                    me.opened.append(path)
                return func(new, *a, **kw)
            return wrapped
        os.stat = wrap(saved[0])
        os.lstat = wrap(saved[1])
        os.access = wrap(saved[2])
        os.listdir = wrap(saved[3])
        builtins.open = wrap(saved[4], True)
        io.open = builtins.open
        os.open = wrap(saved[6], True)
        try:
            yield self
        finally:
            (os.stat, os.lstat, os.access, os.listdir, builtins.open, io.open, os.open) = saved


def put_prefs(path, text):
    """Preferences at the (virtual) path; None removes them."""
    real = root() + os.path.normpath(os.path.join("/", path))
    if text is None:
        if os.path.exists(real):
            os.unlink(real)
        return
    env.write(real, text)


def make_server(config, klass=None, paths=None, **kw):
    """A server object with this site configuration, not listening; or with
    what there is in two directories, of the site and of the rules."""
    import signal
    import oa.server
    klass = klass or oa.server.Server
    if paths is None:
        put_site(config)
        paths = (env.scratch("site"),) * 2

    class Quiet(klass):
        def _setup_socket(self):
            pass

        def server_close(self):
            pass
    old = signal.getsignal(signal.SIGUSR1), signal.getsignal(signal.SIGTERM)
    try:
        return Quiet(("127.0.0.1", 0), *paths, **kw)
    finally:
        signal.signal(signal.SIGUSR1, old[0] or signal.SIG_DFL)
        signal.signal(signal.SIGTERM, old[1] or signal.SIG_DFL)


def put_site(config):
    env.write(os.path.join(env.scratch("site"), "site.cf"), config)
