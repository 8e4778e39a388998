import inspect


class _Zero(object):
    def __repr__(self):
        return 'ZERO'


ZERO = _Zero()


class Slot(object):
    """an argument that is (also) a result: x[...] = value assigns, x[...] gives what was assigned"""
    def __init__(self):
        self.has = False
        self.value = None

    def __setitem__(self, index, value):
        if index is Ellipsis:
            self.has, self.value = True, value
        else:
            self.value[index] = value

    def __getitem__(self, index):
        return self.value if index is Ellipsis else self.value[index]


class statement(object):
    def __init__(self, ain, aout):
        self.ain, self.aout = list(ain), list(aout)

    def __call__(self, body):
        self.body = body
        self.name = body.__name__
        return self

    def defvjp(self, body):
        self.vjp = body

    def defjvp(self, body):
        self.jvp = body

    def run(self, which, engine, **values):
        """call the operator ('body'), or its products; the values that are given are passed, the others are slots.
        Returns the results by name."""
        f = getattr(self, which)
        names = list(inspect.signature(f).parameters)[1:]
        args, slots = {}, {}
        for n in names:
            if n in values:
                args[n] = values[n]
            else:
                args[n] = slots[n] = Slot()
        f(engine, **args)
        return {n: s.value for n, s in slots.items() if s.has}


class programme(object):
    def __init__(self, ain, aout):
        self.ain, self.aout = ain, aout

    def __call__(self, body):
        self.body = body
        return self


class Engine(object):
    pass


class Literal(object):
    def __init__(self, value):
        self.value = value


class CodeSegment(object):
    def __init__(self, engine):
        self.engine = engine
        self.calls = []

    def add(self, **kw):
        self.calls.append(('add', kw))
