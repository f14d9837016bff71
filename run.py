#!/usr/bin/env python3
"""run.py C01 [C02 ...] [--tier quick|thorough] [--suite NAME] | --replay FILE | --setup"""
import json
import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))
from lib import engine  # noqa: E402


def cli(argv):
    if argv[:1] == ["--worker"]:
        engine.worker(json.loads(Path(argv[1]).read_text()))
        return 0
    if argv[:1] == ["--replay"]:
        return engine.replay(argv[1])
    if argv[:1] == ["--setup"]:
        import numba, numpy, scipy  # noqa: E401,F401

        for line in (engine.ROOT / "properties.jsonl").read_text().splitlines():
            engine.load_check(json.loads(line)["id"])
        print("setup ok: nothing to build, checks run the library from", engine.REPO)
        return 0
    tier, only, props = None, [], []
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--suite":
            only.append(next(it))
        else:
            props.append(a)
    return max(engine.main(p, tier, only) for p in props)


if __name__ == "__main__":
    sys.exit(cli(sys.argv[1:]))
