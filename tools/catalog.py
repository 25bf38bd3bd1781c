"""The properties' text.  Writes properties.jsonl and MANIFEST.json.
   python3 tools/catalog.py"""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PB = "dataprofiler/profilers/profile_builder.py"
NUM = "dataprofiler/profilers/numerical_column_stats.py"
FLT = "dataprofiler/profilers/float_column_profile.py"
TXT = "dataprofiler/profilers/text_column_profile.py"
INT = "dataprofiler/profilers/int_column_profile.py"
CAT = "dataprofiler/profilers/categorical_column_profile.py"
DAT = "dataprofiler/profilers/datetime_column_profile.py"
ORD = "dataprofiler/profilers/order_column_profile.py"
CMP = "dataprofiler/profilers/column_profile_compilers.py"
UTL = "dataprofiler/profilers/profiler_utils.py"
REP = "dataprofiler/profilers/helpers/report_helpers.py"
BASE = "dataprofiler/profilers/base_column_profilers.py"
HIS = "dataprofiler/profilers/histogram_utils.py"
OPT = "dataprofiler/profilers/profiler_options.py"
JDE = "dataprofiler/profilers/json_decoder.py"
JEN = "dataprofiler/profilers/json_encoder.py"
UTX = "dataprofiler/profilers/unstructured_text_profile.py"
DLC = "dataprofiler/profilers/data_labeler_column_profile.py"
ULP = "dataprofiler/profilers/unstructured_labeler_profile.py"
L = "dataprofiler/labelers/"
DPR, RGX, CNM, BDL, BMO = L + "data_processing.py", L + "regex_model.py", L + "column_name_model.py", L + "base_data_labeler.py", L + "base_model.py"
R = "dataprofiler/data_readers/"
CSV, JSN, PAR, AVR, TXD = R + "csv_data.py", R + "json_data.py", R + "parquet_data.py", R + "avro_data.py", R + "text_data.py"
DUT, BDT, MIX, FOB, DTA = R + "data_utils.py", R + "base_data.py", R + "structured_mixins.py", R + "filepath_or_buffer.py", R + "data.py"

TLA = "TLA+ model checking (TLC) + replay of sampled specification behaviours + TLC trace validation"
TRUST = ("Exhaustive on the specification within the stated bounds; on the code, every sampled behaviour of the "
         "specification is replayed and every step judged by TLC. Trusted: TLC, the projection in harness/, and that "
         "the sampled cell alphabet represents data of its kinds.")

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, level_note="", state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, level_note=level_note, state=state, observe=observe))


def mech(*pairs):
    return [{"name": a, "where": b} for a, b in pairs]


exec(open(os.path.join(ROOT, "tools", "properties_text.py")).read())

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": list(p["state"]), "mechanism": p["mechanism"],
                            "observe_at": list(p["observe"]) or ["the report of the profile"],
                            "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": p["id"],
                     "quick_cmd": "bash check.sh %s quick" % p["id"],
                     "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                     "technique": TLA, "level": "model_checking",
                     "level_note": (p["level_note"] + " " if p["level_note"] else "") + TRUST}
                    for p in P],
         "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks in /repo: everything is observed through the public API. See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
