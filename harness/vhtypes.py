"""Types of the harness: values that go through footprints (see FPVal.tla for their specification)."""


class Up(str):
    """A string type: upper case and an optional suffix; refuses the '!' character."""

    def __new__(cls, v, suffix=''):
        if '!' in str(v):
            raise ValueError('refused: ' + str(v))
        return str.__new__(cls, str(v).upper() + str(suffix))

    def sees(self, guess, extras):
        return '+'.join(sorted(guess.keys()))

    def __getnewargs__(self):
        # The text is given as is to __new__ when unpickled or copied
        return (str(self),)

    def __reduce_ex__(self, proto):
        return (_mkup, (str(self),))


def _mkup(text):
    return str.__new__(Up, text)


class Foo:
    """A value object, equal by tag."""

    def __init__(self, x):
        if str(x).startswith('bad'):
            raise ValueError('bad foo')
        self.tag = str(x)

    @property
    def size(self):
        return len(self.tag)

    @property
    def child(self):
        return Foo(self.tag + 'x')

    @property
    def nothing(self):
        return None

    def shout(self, guess, extras):
        return self.tag.upper()

    def sees(self, guess, extras):
        return '+'.join(sorted(guess.keys()))

    def brk(self, guess, extras):
        return '[' + self.tag + ']'

    def boom(self, guess, extras):
        raise KeyError('boom')

    def none(self, guess, extras):
        return None

    def __eq__(self, other):
        return isinstance(other, Foo) and self.tag == other.tag

    def __hash__(self):
        return hash(('Foo', self.tag))

    def __str__(self):
        return 'Foo(' + self.tag + ')'

    __repr__ = __str__


class FooSub(Foo):

    def export_dict(self):
        return ['sub', self.tag]


class Valuer:
    """A default value which is only known when needed."""

    def __init__(self, value):
        self.value = value

    def footprint_value(self):
        return self.value
