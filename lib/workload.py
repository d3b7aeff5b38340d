"""Functions whose calls are profiled."""


def f0(kids):
    for f, ks in kids:
        F[f](ks)


def f1(kids):
    for f, ks in kids:
        F[f](ks)


def f2(kids):
    for f, ks in kids:
        F[f](ks)


def f3(kids):
    for f, ks in kids:
        F[f](ks)


F = {"f0": f0, "f1": f1, "f2": f2, "f3": f3}
