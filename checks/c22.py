"""Starting and stopping: reference counting, failed starts, shutdown tasks, restarts."""
from mc.lifecycle import make

LEVEL = "model_checking"
ITEM_CPU = 600
BOUNDS = {
    "quick": "all words of length 5 over start (paused), shutdown, failing starts of a store or an executor, pause, resume, adding tasks and shutdown tasks, processing (memory store), of length 4 on the file store",
    "thorough": "words of length 6 (memory), 5 (file)",
}
ASSUMPTIONS = ["the timer is left out, the harness calls the processing at any time"]
MIN = {"transitions": 20000}
A = ("start", "start-paused", "shutdown", "fail-store", "fail-executor", "pause", "resume", "add-a", "add-stop", "process")
items, explore = make({"lifecycle": (A, 5, 6, ("memory", "file"))}, 6)
