from . import dates, texts, state, e2e
PROPS = {}
for mod in (dates, texts, state, e2e):
    for o in vars(mod).values():
        if isinstance(o, type) and getattr(o, 'id', None) and o.__module__ == mod.__name__:
            PROPS[o.id] = o
