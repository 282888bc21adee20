"""Shared by the property definitions."""

COMMON = [
    "child processes, signals, waitpid/pidfd and the clock are simulated (mc/world.py); everything else "
    "(shellous, asyncio, pipes, ptys, descriptors) is real; mc/conform.py compares the outcomes of the catalogue with those of real processes (run by the thorough check of C02)",
    "a process killed by SIGKILL exits before virtual time passes",
    "exploration is bounded by the number of deviations from a default schedule (budgets in coverage.phases)",
]


class Result:
    def __init__(self):
        self.violations = []
        self.coverage = {}
        self.known = {}
        self.errors = []


VALUE_ASSUME = [
    "the operating system and Python's subprocess module pass on what shellous hands them (only the hand-over is observed)",
]
