"""An executor whose runs start and finish when the harness says so."""
from asyncz.executors.base import BaseExecutor, run_task


class ManualExecutor(BaseExecutor):
    def start(self, scheduler, alias):
        super().start(scheduler, alias)
        self.queue = []

    def do_send_task(self, task, run_times):
        if getattr(self, "broken", False):
            raise OSError("the executor is broken")
        self.queue.append((task, list(run_times)))

    def finish(self, index=0):
        task, run_times = self.queue.pop(index)
        try:
            events = run_task(task, task.store_alias, run_times, self.logger)
        except BaseException:
            self.run_task_error(task.id)
        else:
            self.run_task_success(task.id, events)
