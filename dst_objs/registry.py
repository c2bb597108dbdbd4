"""Recording area shared by the probe blocks and the harness (per rank when ranks are simulated)."""
LOG = []          # (time_ns, block, kind, payload)
HOOK = {}         # name -> callable, optional per-case hooks


def reset():
    LOG.clear()
    HOOK.clear()


def rec(t, name, kind, payload=None):
    LOG.append((t, name, kind, payload))
