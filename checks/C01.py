"""A swap moves exactly the quoted tokens and books every fee once."""
from .swapkit import *
from . import C05 as fees

META = {"level": "model_checking", "assumptions": SWAP_ASSUME, "funcs": fees.FUNCS}


def goals(x, q):
    return q.ok + movement(x, q) + books(x, q) + events(x, q)


def tasks():
    return swap_tasks(goals) + fees.KERNELS
