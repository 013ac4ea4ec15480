"""The registry of checks."""
from . import cchecks, gchecks, pchecks

CHECKS = {}
for module in (cchecks, gchecks, pchecks):
    for name in dir(module):
        item = getattr(module, name)
        if isinstance(item, type) and getattr(item, 'id', None):
            CHECKS[item.id] = item()
