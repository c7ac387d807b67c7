"""Python definitions of library functions that contain loops."""


def sum_(data, start=0):
    total = start
    for item in data:
        total = total + item
    return total


_MISSING = ("missing",)


def reduce_(function, data, initial=_MISSING):
    it = iter(data)
    if initial is _MISSING:
        acc = None
        first = True
        for item in it:
            if first:
                acc = item
                first = False
            else:
                acc = function(acc, item)
        if first:
            raise TypeError("reduce() of empty iterable with no initial value")
        return acc
    acc = initial
    for item in it:
        acc = function(acc, item)
    return acc


def accumulate_(data, func=None, initial=None):
    out = []
    total = initial
    if initial is not None:
        out.append(total)
    for item in data:
        if total is None:
            total = item
        elif func is None:
            total = total + item
        else:
            total = func(total, item)
        out.append(total)
    return iter(out)


def takewhile_(pred, data):
    out = []
    for item in data:
        if not pred(item):
            break
        out.append(item)
    return iter(out)


def dropwhile_(pred, data):
    out = []
    dropping = True
    for item in data:
        if dropping and pred(item):
            continue
        dropping = False
        out.append(item)
    return iter(out)
