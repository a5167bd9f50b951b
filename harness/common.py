"""Helpers shared by the harnesses (interpreted, never executed)."""


def outcome(f, *args):
    """What a call does: ('ok', result) or (name of the exception, None)."""
    try:
        r = f(*args)
    except ValueError:
        return ('ValueError', None)
    except TypeError:
        return ('TypeError', None)
    except KeyError:
        return ('KeyError', None)
    except IndexError:
        return ('IndexError', None)
    except AttributeError:
        return ('AttributeError', None)
    return ('ok', r)


def raises(f, *args):
    """Name of the exception a call raises, or 'ok'."""
    return outcome(f, *args)[0]


def getitem(o, k):
    return o[k]


def getslice(o, i, j):
    return o[i:j]


def setitem(o, k, v):
    o[k] = v


def setslice(o, i, j, v):
    o[i:j] = v


def getvalue(o):
    return o.value


def setvalue(o, v):
    o.value = v
