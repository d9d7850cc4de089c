import json, os


def run(c):
    c.build()
    c.model("FastDiv", f"SPECIFICATION Spec\nINVARIANTS QuotientOK MagicOK\nCONSTANT W = {12 if c.thorough else 10}\nCHECK_DEADLOCK FALSE\n")
    c.model("FastDivCritical", f"SPECIFICATION Spec\nINVARIANT Lemma\nCONSTANT W = {7 if c.thorough else 6}\nCHECK_DEADLOCK FALSE\n")
    _, _, out = c.harness("c19")
    cases = [json.loads(l) for l in open(os.path.join(out, "trace.ndjson"))]
    c.samples += cases[5:8]
    c.judge("FastDivJudge", os.path.join(c.work, "judge.ndjson"), cases, what="fast division does not give the quotient")
