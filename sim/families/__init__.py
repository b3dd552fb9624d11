from . import devices, events, exchange, isolation, resources, session, stream, values

FAMILIES = {}
for _m in (stream, session, exchange, devices, events, isolation, resources, values):
    for _n in dir(_m):
        _c = getattr(_m, _n)
        if isinstance(_c, type) and getattr(_c, "prop", "?") == _n:
            FAMILIES[_n] = _c()
