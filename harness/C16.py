"""Failed edits leave the tree unchanged: the operations of C15, judged on failure."""
from harness import C15
from harness.C15 import *


def harnesses(tier):
    return C15.harnesses(tier, "atomic")
