"""Nothing is processed unless the scheduler is running; nothing is lost while it is paused."""
from mc.lifecycle import make

LEVEL = "model_checking"
ITEM_CPU = 600
BOUNDS = {
    "quick": "all words of length 5 over start, start paused, pause, resume, shutdown, processing, time passing and adding (memory store), of length 4 on the file store",
    "thorough": "words of length 6 (memory), 5 (file, sql, redis, mongo)",
}
ASSUMPTIONS = ["the timer is left out, the harness calls the processing at any time"]
MIN = {"transitions": 20000}
A = ("start", "start-paused", "pause", "resume", "shutdown", "process", "later", "add-a", "add-later", "touch-a")
items, explore = make({"gating": (A, 5, 6, ("memory", "file"))}, 6)
