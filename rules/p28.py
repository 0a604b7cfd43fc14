"""P28: the client connects every url, once, and keeps only runners of its own version, once per id."""
from . import remote

RULE = ("Typestate of AstroRunRemoteRunnerClient::start (connect inlined): each url is connected exactly once; a runner is entered only under the id it reports, with its own metadata and connection, "
        "after its version was compared with the constant its server reports and its id was looked up under the same lock; it is left out only for one of these reasons or a failed call, and the loop over the urls is exhausted on every path.")

ASSUME = remote.ASSUME


def run(P, R):
    r = remote.start(P, R, "connect")
    if r:
        for n in ("connect", "entered", "refused:version", "refused:duplicate", "all-urls"):
            R.floor(r, n, 1)
