"""P40: every plugin of the runner sees each step before and after it runs."""
from . import runner

RULE = ("Typestate of both hooks of the runner's plugin driver (each plugin once, in order, awaited, the step passed on from plugin to plugin, errors skipped), of AstroRunner::run (the hooks' result is what is executed, "
        "the second hook follows the end of the step), and composition of the summaries of the builder's methods.")
ASSUME = runner.ASSUME


def run(P, R):
    runner.plugin_hooks(P, R)
    runner.run_step(P, R, {"P40"})
    runner.builder(P, R)
    for n in ("before", "after", "built",):
        R.floor(None, n, 1)
