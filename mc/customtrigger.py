"""A trigger written like the documentation says."""
from datetime import timedelta

from asyncz.triggers.base import BaseTrigger


class Every(BaseTrigger):
    alias = "every"
    step: int = 5

    def get_next_trigger_time(self, timezone, previous_time, now=None):
        base = previous_time if previous_time is not None else now
        return (base + timedelta(seconds=self.step)).replace(microsecond=0)
