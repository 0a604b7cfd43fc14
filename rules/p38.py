"""P38: steps whose container is this host run on the host, all others in docker."""
from . import runner

RULE = ("Abstract interpretation of AstroRunner::run: at the call of the executor its type is compared with what the path knows of the container's name (absent, equal to host/<os> or host/<os>-<arch>, different from both).")
ASSUME = runner.ASSUME


def run(P, R):
    runner.run_step(P, R, {"P38"})
    for n in ("docker:default", "docker:image", "host:host/linux",):
        R.floor(None, n, 1)
