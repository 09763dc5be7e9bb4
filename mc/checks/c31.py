"""C31: learning survives a crash at any database operation."""
import itertools

from mc import bayes
from mc.checks import c30

TECHNIQUE = "exhaustive enumeration of the crash and failure points of every operation in every reachable database of a set of messages, on the real plugin, stores and database files: the files as they are at each operation on the database are recovered and the operation repeated"
LEVEL_NOTE = "Every database reachable with sets of 2-3 messages, 3 operations, both stores, a process ended or an error raised before and after every statement and commit; two crashes in a row in thorough."
ASSUMPTIONS = ["a crash is one of the process; that SQLite keeps its promises when the machine fails is not looked at", "the MySQL store runs on a stand-in for pymysql over SQLite"]

SETS = [("plain", "overlap"), ("no-id", "empty"), ("multipart", "odd-id")]
DEEP = [("plain", "same-words", "overlap"), ("bad-date", "multipart", "bare")]
CLASSES = (None, "spam", "ham")


class Fault(Exception):
    pass


def after(state, op, name):
    out = dict(state)
    out[name] = None if op == "forget" else op
    return out


def points(w, op, text, state):
    """Snapshots of the files at every operation on the database."""
    shots = []
    w.db.load(state)
    msg = w.message(text)
    bayes.HOOK = lambda what: shots.append((what, w.db.save()))
    try:
        w.do(op, msg)
    finally:
        bayes.HOOK = None
    return shots


def failing(w, op, msg, at):
    """Run with an error at the at-th operation; whether it got there."""
    n = [0]

    def hook(what):
        n[0] += 1
        if n[0] == at:
            raise Fault("disk I/O error")
    bayes.HOOK = hook
    try:
        w.do(op, msg)
    except Exception:
        pass
    finally:
        bayes.HOOK = None
    return n[0] >= at


def prepare(case, rec):
    store, classes = case[:2]
    names = tuple(n for n, _ in classes)
    w = c30.world(store)
    tokens = {n: w.tokens(c30.MESSAGES[n]) for n in names}
    idof = c30.ids(w, names)
    for n, c in classes:
        if c:
            w.do(c, w.message(c30.MESSAGES[n]))

    def want(model):
        return bayes.expected(model, tokens, idof)
    base = w.db.save()
    bad = bayes.difference(w.db.dump(), want(dict(classes)))
    if bad:
        rec.fail("%s/state" % store, bad, state=classes)
        return None
    return w, want, base


def ways(state, op, name):
    """The models a crash may leave."""
    out = [dict(state), after(state, op, name)]
    if dict(state)[name]:
        out.append(after(state, "forget", name))
    return out


def run_crash(case, rec):
    store, classes, op, name, depth = case
    got = prepare(case, rec)
    if got is None:
        return
    w, want, base = got
    text = c30.MESSAGES[name]
    todo = [((), base)]
    key = "%s/crash-%s" % (store, op)
    while todo:
        how, state = todo.pop()
        for i, (what, files) in enumerate(points(w, op, text, state)):
            where = how + ((i, what),)
            rec.state((store, classes, op, name, where))
            rec.step()
            info = dict(store=store, state=classes, operation=(op, name), crash=where)
            try:
                w.db.load(files)
                left = w.db.dump()
                if any(min(v) < 0 for v in left[2].values()) or min(left[0]) < 0:
                    rec.fail(key, "negative counts after a crash", left=repr(left)[:300], **info)
                if all(bayes.difference(left, want(m)) for m in ways(classes, op, name)):
                    rec.fail(key, "after a crash: %s" % bayes.difference(left, want(dict(classes))), **info)
                if len(where) < depth:
                    todo.append((where, w.db.save()))
                w.do(op, w.message(text))
                bad = bayes.difference(w.db.dump(), want(after(classes, op, name)))
            except Exception as e:
                bad = "repeating fails: %r" % e
            if bad:
                rec.fail(key, "after a crash and repeating %s: %s" % (op, bad), **info)
        if not how:
            rec.sample(dict(state=classes, operation=(op, name), points=i + 1))
    rec.trace()


def run_error(case, rec):
    store, classes, op, name, _ = case
    got = prepare(case, rec)
    if got is None:
        return
    w, want, base = got
    other = [n for n, _ in classes if n != name][0]
    key = "%s/error-%s" % (store, op)
    at = 0
    while True:
        at += 1
        reached = True
        for then in ("repeat", "other"):
            w.db.load(base)
            msg, second = w.message(c30.MESSAGES[name]), w.message(c30.MESSAGES[other])
            reached = failing(w, op, msg, at)
            if not reached:
                break
            rec.state((store, classes, op, name, at, then))
            rec.step()
            info = dict(store=store, state=classes, operation=(op, name), error_at=at, then=then)
            try:
                if then == "repeat":
                    w.do(op, msg)
                    bad = bayes.difference(w.db.dump(), want(after(classes, op, name)))
                else:
                    w.do("spam", second)
                    left = w.db.dump()
                    bads = [bayes.difference(left, want(after(m, "spam", other))) for m in ways(classes, op, name)]
                    bad = bads[0] if all(bads) else None
            except Exception as e:
                bad = "fails: %r" % e
            if bad:
                rec.fail(key, "after an error at operation %d of %s, %s: %s" % (at, op, then, bad), **info)
        if not reached:
            break
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    cases = []
    for names in SETS + (DEEP if deep else []):
        for cls in itertools.product(CLASSES, repeat=len(names)):
            classes = tuple(zip(names, cls))
            for op in ("spam", "ham", "forget"):
                for name in names[:1] if not deep else names[:2]:
                    for store in ("sqlalchemy", "mysql"):
                        cases.append((store, classes, op, name, 2 if deep and len(names) == 2 else 1))
    return [
        Space("crashes", cases, run_crash, "the process ends before or after any statement or commit; the operation is repeated", chunk=2),
        Space("errors", cases, run_error, "any statement or commit fails; the operation is repeated, or another message learned", chunk=2),
    ]
