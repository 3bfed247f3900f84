#!/usr/bin/env python3
"""Mirrors /repo into a folder where it builds without its git dependencies (hdf5, plotly, vtkio).

sync.py scope   build/scope: in the same way as the build of this sandbox does, declarations of the
                modules that need one of them are commented out
sync.py io      build/io: with the data managers and converters, against the stand-ins of hdf5 and
                vtkio in stubs/, without plotting and the python module
sync.py full    build/full: everything, against the stand-ins

Files are copied as they are. A file is only rewritten when its content changes."""
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("UP4_REPO", "/repo")
STUBS = ("hdf5", "vtkio", "plotly")

KINDS = {
    "scope": {
        "stubs": (),
        "drop": {
            "src/lib.rs": ["plotly", "converter", "plotting", "pylib"],
            "src/datamanager.rs": ["pdata", "tdata"],
        },
        "skip": ("src/main.rs", "src/converter", "src/plotting", "src/pylib",
                 "src/datamanager/pdata.rs", "src/datamanager/tdata.rs"),
        "crate": '["rlib"]',
    },
    "io": {
        "stubs": ("hdf5", "vtkio"),
        "drop": {"src/lib.rs": ["plotly", "plotting", "pylib"]},
        "skip": ("src/main.rs", "src/plotting", "src/pylib"),
        "crate": '["rlib"]',
    },
    "full": {
        "stubs": STUBS,
        "drop": {},
        "skip": ("src/main.rs",),
        "crate": '["rlib"]',
    },
}


def main(kind):
    cfg = KINDS[kind]
    out = os.path.join(HERE, "build", kind)

    def put(rel, text):
        path = os.path.join(out, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.exists(path):
            with open(path, encoding="utf-8", newline="") as f:
                if f.read() == text:
                    return
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)

    def get(rel):
        with open(os.path.join(REPO, rel), encoding="utf-8", newline="") as f:
            return f.read()

    def dependency(m):
        if m.group(1) in cfg["stubs"]:
            return f'{m.group(1)} = {{ path = "../../stubs/{m.group(1)}" }}'
        return "# " + m.group(0)

    toml = re.sub(r"^([\w-]+)\s*=.*\bgit\s*=.*$", dependency, get("Cargo.toml"), flags=re.M)
    toml = re.sub(r"^crate-type\s*=.*$", f'crate-type = {cfg["crate"]}', toml, flags=re.M)
    put("Cargo.toml", toml)
    if kind == "full":
        # the python package
        names = [n for n in os.listdir(os.path.join(REPO, "up4")) if n.endswith(".py")]
        for name in names:
            put("py/up4/" + name, get("up4/" + name))
        for name in os.listdir(os.path.join(out, "py", "up4")):
            if name not in names and name.endswith(".py"):
                os.remove(os.path.join(out, "py", "up4", name))
    kept = set()
    for top, _, names in os.walk(os.path.join(REPO, "src")):
        for name in names:
            rel = os.path.relpath(os.path.join(top, name), REPO)
            if not name.endswith(".rs") or rel.startswith(cfg["skip"]):
                continue
            text = get(rel)
            for mod in cfg["drop"].get(rel, ()):
                text = re.sub(
                    rf"^((?:pub )?(?:mod {mod};|use {mod}::[^;\n]*;|extern crate {mod};))",
                    r"// \1", text, flags=re.M)
            put(rel, text)
            kept.add(rel)
    for top, _, names in os.walk(os.path.join(out, "src")):
        for name in names:
            path = os.path.join(top, name)
            if os.path.relpath(path, out) not in kept:
                os.remove(path)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1] if len(sys.argv) > 1 else "scope"))
