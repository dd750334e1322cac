"""Symbols for d_refs."""
ZERO = 0


class A:
    EMPTY = ''

    class B:
        def m(self):
            pass

    @staticmethod
    def s():
        pass

    @classmethod
    def c(cls):
        pass


alias = A


def fun():
    pass
