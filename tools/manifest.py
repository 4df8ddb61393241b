#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of built checks below."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
REPLAY = "TLA+ model (TLC); every transition of the model replayed into the code"
TRACE = "TLA+ model (TLC); recorded executions of the code validated by a trace specification"
BOTH = "TLA+ model (TLC); transitions replayed into the code and recorded executions validated against the model"

BUILT = {
    "G01": (TRACE, "Protocol model refines the contract for 3 (thorough: 4) contexts; real threads and coroutines run under a controlled scheduler, systematic single preemptions plus random schedules."),
    "G02": (TRACE, "As G01, with order and progress clauses; progress is judged by stalls in the controlled scheduler."),
    "G03": (TRACE, "As G01 with one or two targets, failures, cancellation and reuse; the manager's table is inspected when idle."),
    "G04": (TRACE, "As G01 with cancellation at every suspension point, failing bodies and reuse of guard objects."),
    "D01": (REPLAY, "All transitions for one database, two tags, two values; sync and async, tag names and values drawn from adversarial pools."),
    "D02": (REPLAY, "As D01 with reopening by either class after every transition."),
    "D03": (REPLAY, "All transitions for a database with a metatag, a share of those for nested ones, random behaviours over five nodes; concurrent openings judged by a trace specification."),
    "D04": (REPLAY, "As D03, comparing the directory, seeded with foreign files and another database, after every transition."),
    "D05": (BOTH, "Every pair of disturbances enumerated by TLC, every cut and byte position of every file, and the directory images at every file operation of saves."),
    "D06": (REPLAY, "All transitions for three profiles differing in one or several parameters, sharing a directory; the contract is also replayed for profiles of one user."),
    "D07": (TRACE, "Random programs of tasks under an event loop with a seeded schedule, on real files; what happened to each tag judged by a trace specification."),
    "E01": (REPLAY, "Every combination of encrypting and decrypting interface enumerated by TLC, with plaintext lengths across several blocks."),
    "E02": (REPLAY, "Every splice of two messages and their contexts with up to 2 (thorough: 3) parts changed, enumerated by TLC; every bit, cut and extension of sample messages."),
    "E03": (REPLAY, "All ages and limits around equality enumerated by TLC under a controlled clock; every transition of the model of a stream with a limit replayed."),
    "E04": (TRACE, "Histories of encryptions of equal plaintexts by equal contexts, one source of randomness repeating at a time, judged by a trace specification."),
    "E05": (REPLAY, "Every plaintext length and every alleged ciphertext length up to several blocks, enumerated by TLC."),
    "E06": (REPLAY, "Settings and lengths enumerated by TLC with the verdict and the length expected; ciphers of each made twice, messages and streams exchanged between them."),
    "S01": (BOTH, "All transitions of the stream models for sizes around block boundaries and groupings of packets; concurrent buffering by threads under a controlled scheduler and by tasks, judged by a trace specification."),
    "S02": (REPLAY, "All transitions: every kind of wrong packet at every position of every group."),
    "S03": (BOTH, "All transitions including partly finalized streams and packets made by a holder of the key; concurrent finalizing as in S01."),
    "D08": (REPLAY, "Every combination of loaded values, lost files, calls and silence enumerated by TLC with the outcome, through both classes."),
    "P01": (BOTH, "Protocol model for 3 (thorough: 4) callers; threads and async tasks run under a controlled scheduler with every file operation a scheduling point, judged for linearizability by TLC."),
    "P02": (BOTH, "Every sequence of up to 3 calls enumerated by TLC, with failing file operations and the images a program ending inside a call leaves."),
    "M01": (REPLAY, "All transitions of an authenticator with its key bundle, sync and async, valid and invalid arguments at and around the permitted sizes."),
    "K01": (BOTH, "Every substitution of any subset of the exchanged public keys enumerated by TLC for both exchanges; all transitions of an exchange object."),
    "K02": (REPLAY, "Every single difference between hashing and verifying enumerated by TLC, with ages at and around the limit; equal inputs by equal names across interfaces."),
    "K03": (REPLAY, "Every setting at and around each limit and every length of an alleged hash enumerated by TLC; a recording stand-in for the worker pool shows what work was begun."),
    "K04": (REPLAY, "All transitions of a signer; every altered part of a summary or of the files, with the checksum or signature redone by an adversary, enumerated by TLC."),
    "K05": (REPLAY, "All transitions of derivation objects and their copies; outputs named by the model, equal names equal and others unrelated."),
    "K06": (REPLAY, "All transitions of key objects of both kinds; every single change to message, signature or key enumerated by TLC."),
    "K07": (REPLAY, "Combinations of costs enumerated by TLC with the memory and passes the model derives; what each worker absorbs and squeezes is counted at the hash function."),
    "I01": (TRACE, "The algorithm model is checked for every key at small sizes; whole domains at one byte and edge and random values at every size, through sync and async calls, judged by a trace specification."),
    "I02": (TRACE, "The model of concurrent callers is checked for uniqueness; threads under a controlled scheduler, tasks and single callers, with controlled clock and tokens, judged by a trace specification."),
    "N01": (BOTH, "Every small sequence and parameter set and every short byte string as an alleged encoding enumerated by TLC; changed, cut and extended longer encodings judged by a trace specification."),
    "N02": (BOTH, "Small numbers to many bases and all short byte strings enumerated by TLC; longer values judged by residues in a trace specification; all transitions of a file model."),
    "N03": (REPLAY, "All times at the edges of units and limits around the age enumerated by TLC, for every unit and several epochs under a controlled clock, times before the epoch included."),
    "N04": (REPLAY, "All transitions of a container with declared, typed, hidden, free, unnamed and method names, for every container type, comparing all it shows after each."),
    "N05": (BOTH, "The polling protocol is checked for delivery and termination; thread callers run under a controlled scheduler, processes with result sizes around the pipe's; every completion order and outcome of gathered functions."),
    "N06": (REPLAY, "All transitions of every tool over sources that end or fail, driven one demand at a time, with the number of items taken from each source."),
    "N07": (REPLAY, "Every combination of ignored types, exceptions, handlers and their results, enumerated by TLC."),
    "N08": (REPLAY, "All transitions of the debugging switch with every object shown in every form and every failing call; texts searched for the secrets in several encodings."),
    "N09": (REPLAY, "All transitions of a model of two names and what they hold, replayed into a scratch directory; the threads that make the system's calls are noted."),
    "Q01": (REPLAY, "All transitions of a model of reporters and the keys they keep, replayed into a copy of the package whose published key is exchanged for one with a known secret."),
    "R01": (BOTH, "The protocol of drawing from a shared sponge is checked, broken variants fail; every short history replayed from one state; threads under a controlled scheduler, tasks and forked processes, with randomness and clock standing still, judged by a trace specification."),
    "R02": (REPLAY, "Every single difference between two selections enumerated by TLC, through all pairs of sync and async forms."),
    "R03": (REPLAY, "All transitions of a model of the daemon replayed into a real one whose clock and sleeps are controlled."),
}

props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
manifest = dict(
    version=1,
    setup_cmd="bash bin/setup",
    checks=[
        dict(
            property=p["id"],
            quick_cmd=f"bin/check {p['id']} --tier quick",
            thorough_cmd=f"bin/check {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=BUILT[p["id"]][0],
            level="model_checking",
            level_note=BUILT[p["id"]][1],
        )
        for p in props
        if p["id"] in BUILT
    ],
    not_applicable=[
        dict(property=p["id"], reason="The specification and check of this property are not built yet.")
        for p in props
        if p["id"] not in BUILT
    ],
    notes="All specifications are TLA+, checked with TLC (spec/). No hooks are needed in /repo.",
)
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(manifest["checks"]), "claimed,", len(manifest["not_applicable"]), "not")
