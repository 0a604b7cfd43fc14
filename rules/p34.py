"""P34: a step's container gets every option of the step."""
from . import runner

RULE = ("Abstract interpretation of DockerExecutor::execute up to the start of the container: the command line, built symbolically, is taken apart into options; image, mounts, entrypoint, working directory, name and, "
        "for one arbitrary element of each of the step's lists (variables, volumes, security options), exactly one option with that element's value.")
ASSUME = runner.ASSUME


def run(P, R):
    runner.execute(P, R, {"P34"}, None, "Docker")
    for f in ("env", "volume", "security"):
        runner.execute(P, R, {"P34"}, f, "Docker")
        R.floor(None, "given:" + f, 1)
        R.floor(None, "none:" + f, 1)
    runner.env_text(P, R)
    for n in ("container", "text:String",):
        R.floor(None, n, 1)
