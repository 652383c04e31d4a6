"""Fallback / MemoryFallback semantics (the same driver as the sequences, continuing on FAILED)."""
from harness.common import *
from harness.C02 import build
from ros_bt_py.nodes.fallback import Fallback, MemoryFallback


def harnesses(tier):
    return build(tier, Fallback, MemoryFallback, F, False)
