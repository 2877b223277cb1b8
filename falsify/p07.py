"""LCMMax returns exactly the maximal frequent itemsets"""
import p06
from p06 import *
import lcmref
CLS = p06.LCMMax


def check(c):
    p06.CLS, p06.REF = p06.LCMMax, lcmref.maximal
    p06.check(c)
