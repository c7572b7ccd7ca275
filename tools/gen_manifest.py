#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in checks/ is claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}


def t(pid, tech, note):
    TECH[pid], NOTE[pid] = tech, note


RUST = ("TLC covers every interleaving of the protocol model within its constants; the code is bound to it by running the "
        "binary (free and under a scheduler that controls its threads) and having TLC judge each recorded result. ")
SHIM = "Trusts the std/threadpool shim (sequentially consistent), ahash as a hash, flate2, serde_json, regex. "
t("C01", "TLA+ (Pipeline, Corpus), TLC; generated schedules replayed; results judged by TLC", RUST + SHIM)
t("C02", "TLA+ (Pipeline in rare mode, Corpus), TLC; generated schedules replayed; results judged by TLC", RUST + SHIM)
t("C03", "TLA+ protocol models (Pipeline, SearchLoc, StatsMerge), TLC; controlled schedules judged by TLC", RUST + SHIM)
t("C04", "TLA+ (Counter), TLC; recorded concurrent histories and runs with tiny tables judged by TLC",
  RUST + SHIM + "Weak memory orderings are not explored.")
t("C05", "TLA+ (Counter, Limbs), TLC; operation sequences and concurrent histories judged by TLC",
  RUST + SHIM + "Integer types up to 64 bits are represented by limbs.")
t("C06", "TLA+ (TopK), TLC; every generated behaviour replayed into the collection",
  "All insert/drain sequences within the constants, plus long random ones; the real collection must agree at every drain.")
t("C07", "TLA+ (StatsMerge, Corpus), TLC; runs and controlled schedules judged by TLC", RUST + SHIM)
t("C08", "TLA+ (StatsMerge, Corpus), TLC; runs and controlled schedules judged by TLC", RUST + SHIM)
t("C09", "TLA+ (Corpus), TLC judges recorded runs", RUST + SHIM)
t("C10", "TLA+ (SearchLoc, Regex), TLC; runs and controlled schedules judged by TLC",
  RUST + SHIM + "Patterns are those of the regular expression language defined in Regex.tla.")
t("C11", "TLA+ (Bloom, Corpus), TLC; runs judged by TLC", RUST + SHIM)
t("C12", "TLA+ (Executor, Faults), TLC; enumerated damaged inputs, outcomes judged by TLC", RUST + SHIM)
t("C13", "TLA+ (StatsMerge with faults), TLC; enumerated injected I/O failures, outcomes judged by TLC", RUST + SHIM)
t("C14", "TLA+ liveness (Pipeline, StatsMerge, SearchLoc), TLC; controlled schedules with deadlock detection",
  RUST + SHIM + "Termination of the code is observed on the schedules that are run; the models are checked under weak fairness.")
t("C15", "TLA+ (OutFile), TLC; generated run sequences replayed on a scratch file system", "Every run sequence within the constants of the specification is replayed. ")
t("C16", "TLA+ (Selection), TLC judges which lines each command processed", RUST + SHIM)
t("C17", "TLA+ (Reader), TLC; generated buffer behaviours replayed, reads judged by TLC", "Reads real gzip files through the library's reader. ")
t("C18", "TLA+ (Seeds), TLC judges pairs of runs", "Compares separate processes. ")
t("C19", "TLA+ (Words, Windows), TLC judges tokens and n-grams", "Word boundaries follow UAX #29 on the character classes listed in Words.tla. ")
PY = "The Python code runs unmodified in its own processes; packages that are not installed are replaced by the stand-ins in pystubs/ (trusted). "
t("C20", "TLA+ (Dedup), TLC; its interleavings replayed into the processes of the tool, results judged by TLC",
  PY + "The shared bit array is held at every access; the exact order of accesses is that of the generated behaviour.")
t("C21", "TLA+ (DedupOps), TLC judges runs", PY)
t("C22", "TLA+ (Overlap), TLC; collections generated and run repeatedly, results judged by TLC", PY + "sort, uniq and mawk of the system are used. ")
t("C23", "TLA+ (EsPaging), TLC; searches during concurrent insertions judged by TLC", PY + "The server is modelled from the documentation. ")
t("C24", "TLA+ (EsBatches, EsOps), TLC judges counts", PY + "The server is modelled from the documentation. ")
t("C25", "TLA+ (MapReduce, MapReduceOps), TLC judges the results of sharded runs", PY + "What a model answers is written in the text. ")
t("C26", "TLA+ (Split, SplitOps), TLC; runs under controlled schedules judged by TLC", PY)
t("C27", "TLA+ (Indexing, IndexOps), TLC; histories of runs with faults judged by TLC", PY + "The server is modelled from the documentation. ")
t("C28", "TLA+ (HfResume, HfOps), TLC; its histories of interrupted runs replayed step by step, results judged by TLC", PY)
t("C29", "TLA+ (Prepare, UrlList, PrepareOps), TLC; runs ended at every point, results judged by TLC", PY)
t("C30", "TLA+ (Contamination, EsOps), TLC judges reports", PY + "The server is modelled from the documentation. ")
t("C31", "TLA+ (Examples, ExamplesOps, OverlapOps), TLC judges the files of examples", PY)
t("C32", "TLA+ (Executor, Faults), TLC; runs with faults under controlled schedules, their messages judged by TLC", "Messages are found by their wording (\"N JSON lines\", \"line N in\", \"N recoverable error\"). ")
t("C33", "TLA+ (Pretrained: word, piece and pair models), TLC; tokens, n-grams and strings of the library and results of the commands with generated tokenizers, judged by TLC", "Tokenizers are generated (WordLevel, WordPiece, BPE, byte-level BPE; with truncation, padding, special tokens) and found through a local hub cache. ")
t("C34", "TLA+ (ToolRun, ToolRunOps), TLC; runs of the Python tools and scripts with damaged files, missing programs and unwritable outputs, their status judged by TLC", PY)

checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
            "technique": TECH[pid],
            "level": "model_checking",
            "level_note": NOTE[pid].strip(),
        })
    else:
        na.append({"property": pid, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(na), "not")
