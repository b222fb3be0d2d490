"""Which harnesses decide which property."""
import os
D = os.path.dirname(os.path.realpath(__file__))

def h(name, srcs, variant="mc", flags="", lib=True):
    return (name, variant, [os.path.join(D, s) for s in srcs] + [os.path.join(D, "mc.cc")], flags, lib)

REPO = os.environ.get("MC_REPO", "/repo")
INSIGHTS = f"{REPO}/src/mlio-py/mlio/contrib/insights"

HARNESSES = {
    "pipeline": h("pipeline", ["h_pipeline.cc"]),
    "csv": h("csv", ["h_csv.cc"]),
    "number": h("number", ["h_number.cc"]),
    "batch": h("batch", ["h_batch.cc"]),
    "streams": h("streams", ["h_streams.cc"]),
    "recordio": h("recordio", ["h_recordio.cc"]),
    "pipe": h("pipe", ["h_pipe.cc"]),
    "tensor": h("tensor", ["h_tensor.cc"]),
    "memory": h("memory", ["h_memory.cc"]),
    "files": h("files", ["h_files.cc"]),
    "image": h("image", ["h_image.cc"], flags="-DMC_NO_SYNC_SHIM"),
    "history": h("history", ["h_history.cc"]),
    "parquet": h("parquet", ["h_parquet.cc"]),
    "insights": h("insights", ["h_insights.cc"] + [f"{INSIGHTS}/{f}" for f in ("column_analyzer.cc", "utils.cc", "hll/hyperloglog.cc")],
                  flags=f"-I{INSIGHTS} -isystem {INSIGHTS}/hll"),
    "python": ("python", "py", [os.path.join(D, "py", "h_python.py")], "", True),
    "race_threads": h("race_threads", ["h_threads.cc"], variant="race"),
    "race_pipeline": h("race_pipeline", ["h_pipeline.cc"], variant="race"),
    "race_memory": h("race_memory", ["h_memory.cc"], variant="race"),
    "race_pipe": h("race_pipe", ["h_pipe.cc"], variant="race"),
    "faults": h("faults", ["h_faults.cc"]),
    "text": h("text", ["h_text.cc"], flags="-fno-access-control"),
}

CHECKS = {
    # What is done in several threads is also explored under the detector of
    # data races: with one, no result can be relied on.
    "C01": dict(harnesses=["pipeline", "race_pipeline", "race_threads"], prefix={"race_pipeline": "C27/C01/", "race_threads": "C27/decode"}),
    "C02": dict(harnesses=["pipeline", "race_pipeline"], prefix={"race_pipeline": "C27/C02/"}),
    "C03": dict(harnesses=["pipeline"]),
    "C04": dict(harnesses=["text"]),
    "C05": dict(harnesses=["text", "race_threads"], prefix={"race_threads": "C27/decode/csv"}),
    "C06": dict(harnesses=["csv"]),
    "C07": dict(harnesses=["number"]),
    "C08": dict(harnesses=["batch", "race_threads"], prefix={"race_threads": "C27/decode"}),
    "C09": dict(harnesses=["batch", "race_threads"], prefix={"race_threads": "C27/decode"}),
    "C10": dict(harnesses=["batch"]),
    "C11": dict(harnesses=["recordio"]),
    "C12": dict(harnesses=["recordio", "race_threads"], prefix={"race_threads": "C27/decode/recordio"}),
    "C13": dict(harnesses=["streams"]),
    "C14": dict(harnesses=["streams"]),
    "C15": dict(harnesses=["streams"]),
    "C16": dict(harnesses=["pipe", "race_pipe"], prefix={"race_pipe": "C27/C16/threads"}),
    "C17": dict(harnesses=["memory", "race_memory"], prefix={"race_memory": "C27/C17/threads"}),
    "C18": dict(harnesses=["files"]),
    "C19": dict(harnesses=["tensor"]),
    "C20": dict(harnesses=["image"]),
    "C21": dict(harnesses=["insights", "python"]),
    "C22": dict(harnesses=["history"]),
    "C23": dict(harnesses=["parquet"]),
    "C24": dict(harnesses=["python"]),
    "C25": dict(harnesses=["python"]),
    "C26": dict(harnesses=["python"]),
    "C28": dict(harnesses=["faults"]),
    "C27": dict(harnesses=["race_threads", "race_pipe", "race_pipeline"], prefix={"race_pipe": "C27/C16/threads"},
                technique="stateless model checking of the implementation, each execution checked against the happens-before relation",
                note="Every schedule within the stated bounds is run on the real code; in each, every access to memory is checked for a race."),
}
