"""What the runtime functions called by compiled code do, as far as the corpus needs it."""
from tv import *


def nothing(m, s):
    """saves and restores every register itself (runtime/*/coroutine asm)"""
    return None


def panic(m, s):
    s.x["panic"] = True
    s.pc = RET
    return "halt"


MODELS = {"assist_preempt_yield": nothing}
