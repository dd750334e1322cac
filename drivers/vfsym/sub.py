from vfsym import fun as up


def fun():
    pass
