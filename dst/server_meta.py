"""Sizes and descriptions of the server checks (importable without booting the application)."""

from .server_checks import CHECKS

RULES = {
    "C01": "A run is 1-5 client connections with 2-20 requests from the vetted pool (130 puzzle types; original, reduced, blank, "
           "foreign and rejected boards), malformed requests and page loads, with network faults, slow searches, engine failures "
           "and thread preemption; each reply is compared with the reply to the same request alone in a fresh server process. "
           "Non-trivial: at least one search was started.",
    "C02": "A run is 2-6 connections with malformed requests and bytes, page loads, split, pipelined, delayed, cut-off and slowly "
           "read traffic, then a proper request of a fresh client; replies are parsed strictly. Non-trivial: more than one reply.",
    "C03": "A run is 1-9 solve requests whose searches end before, at (down to a microsecond) or after the limit, with slow grounding, "
           "slow cancellation, late answers and wall-clock jumps. Non-trivial: at least one search was started.",
    "C04": "A run is 1-16 solve requests with disconnects, time-outs, failing engines, failing answer callbacks and memory errors at "
           "random lines; the engine's searches are inspected at each reply and at the end. Non-trivial: at least one search.",
    "C05": "A run is 1-12 solve requests, mostly with several answers, arriving in different rhythms and with late answers; boards are "
           "compared with an independent conversion of the answers and with the same answers delivered alone. Non-trivial: a search.",
    "C07": "A run is 2-8 solve requests; one or two of them meet an engine failure (9 places) or an exception at a random line of the "
           "code under test; the status and content of theirs and all other replies are judged. Non-trivial: the failure did happen.",
    "C13": "A run is 1-2 users, each on a board with seeded margins and scribbles, who solve, adopt, erase and solve again up to 5 times "
           "among other traffic; every answer board is compared with the submitted one by an independent codec. Non-trivial: a search.",
    "C14": "A run is 1-2 users who solve, adopt the whole answer or random parts of it, erase, and solve again up to 5 times among other "
           "traffic; the adopted answer must be among the next answers. Non-trivial: a search was started.",
    "C15": "A run is 2-18 solve requests on a server started with random options (limit, threads, host, port, debug), with failing, "
           "slow and rejected requests in between; each search's effective settings are judged. Non-trivial: a search was started.",
}
ASSUME = [
    "searches of the vetted pool need at most 60000 conflicts, so the real engine can enumerate their answers synchronously",
    "the kernel delivers bytes of one connection in order (TCP)",
    "pre-emption between threads happens at source lines and blocking operations of the code under test, not within a line",
]

META = {
    prop: {"runs": cls.runs, "per_batch": cls.per_batch, "boot": cls().boot_options, "rule": RULES[prop], "assumptions": ASSUME}
    for prop, cls in CHECKS.items()
}
