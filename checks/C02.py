"""Swap amount, slippage limit and mode are always honoured."""
from .swapkit import *
from . import C05 as fees

META = {"level": "model_checking", "assumptions": SWAP_ASSUME, "funcs": fees.FUNCS}


def goals(x, q):
    return q.ok + limits(x, q) + movement(x, q, pool=False)


def tasks():
    return swap_tasks(goals) + fees.KERNELS
