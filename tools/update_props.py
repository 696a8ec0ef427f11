"""One-off edits of properties.jsonl (kept for reference)."""
import json
import sys

rows = [json.loads(line) for line in open("properties.jsonl")]
by = {r["id"]: r for r in rows}
edits = json.load(open(sys.argv[1]))
for pid, e in edits.items():
    if pid not in by:
        by[pid] = {"id": pid}
        rows.append(by[pid])
    by[pid].update(e)
rows.sort(key=lambda r: r["id"])
with open("properties.jsonl", "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
