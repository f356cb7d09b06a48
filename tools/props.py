"""The properties, in one place: writes properties.jsonl and MANIFEST.json."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def prop(id, pkg, level, title, statement, over, quantifier, why, files, mechanism, technique, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        id=id, pkg=pkg, level=level, title=title, statement=statement, over=over, quantifier=quantifier,
        why=why, files=files, mechanism=mechanism, technique=technique, note=note))


ENUM = "exhaustive enumeration of the real code's executions, depth-first over every choice, in a bounded space"

exec(open(f"{VERIF}/tools/props_list.py").read())


def main():
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quantifier"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
            }, ensure_ascii=False) + "\n")
    claimed = [p for p in PROPS if p["pkg"]]
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in claimed],
        "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
    }
    with open(f"{VERIF}/MANIFEST.json", "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")
    with open(f"{VERIF}/tools/harness.json", "w") as f:
        json.dump({p["id"]: p["pkg"] for p in claimed}, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(claimed), "claimed")


if __name__ == "__main__":
    main()
