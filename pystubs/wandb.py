"""Keeps what a run records in the file named by PV_WANDB."""
import json
import os

run = None


class Summary(dict):
    def __init__(self, run):
        super().__init__()
        self._run = run

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        self._run._save()

    def update(self, *a, **k):
        super().update(*a, **k)
        self._run._save()


class Run:
    def __init__(self, name=None, project=None, config=None, **kw):
        self.name, self.project, self.config = name, project, dict(config or {})
        self.summary = Summary(self)
        self._save()

    def _save(self):
        if os.environ.get("PV_WANDB"):
            with open(os.environ["PV_WANDB"], "w") as f:
                json.dump({"name": self.name, "config": self.config, "summary": dict(self.summary)}, f)

    def log(self, data, **kw):
        self.summary.update(data)

    def finish(self, *a, **kw):
        pass


def init(**kw):
    global run
    run = Run(**kw)
    return run


def log(data, **kw):
    run.log(data, **kw)


def finish(*a, **kw):
    pass
