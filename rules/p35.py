"""P35: the script a container runs is complete on disk before the container starts."""
from . import runner

RULE = ("Typestate of DockerExecutor::execute over the files it opens: at the start of the container the file mounted as entrypoint was created or emptied, executable, in a directory created before, holds exactly "
        "the step's text (with an interpreter line before it iff it has none of its own), was flushed, and each of these operations was awaited and succeeded.")
ASSUME = runner.ASSUME


def run(P, R):
    runner.execute(P, R, {"P35"}, None, "Docker")
    for n in ("script:sh", "script:own",):
        R.floor(None, n, 1)
