#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) from the definitions in
/verif/tools/seeds/*.py. Each definition: seed(id, property, needs, breaks, edits, demo, stub=False);
edits: list of (file, old, new), where old must occur exactly once."""
import difflib, json, os, shutil, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PPV_REPO", "/repo")
SEEDS = os.path.join(ROOT, "tools", "seeds")
only = sys.argv[1:]
CLI_BUILD = r'''g++ -std=c++20 -w -include algorithm -include cstring -Isrc -I"$D/stub" -I/usr/include/poppler \
  -DPROGRAM_NAME='"p"' -DPROGRAM_DESCRIPTION='"d"' -DPROGRAM_USAGE='"u"' -DVERSION='"v"' \
  -DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR='"m"' src/SemanticRolesPrediction.cpp \
  src/ReadingOrderDetection.cpp src/PdfToTextPlusPlus.cpp src/pdftotext++.cpp \
  $(find build/src -name '*.o' ! -name 'pdftotext++.o') \
  -lpoppler -lutf8proc -lboost_program_options -o "$T/cli" || { echo "cannot build the program"; exit 3; }
'''

def seed(id, prop, needs, breaks, edits, demo, stub=False, extra="", cli=False):
    if only and id not in only:
        return
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    by_file = {}
    for f, old, new in edits:
        text = by_file.get(f) or open(os.path.join(REPO, f)).read()
        if text.count(old) != 1:
            sys.exit(f"{id}: {f}: {text.count(old)} occurrences of {old!r}")
        by_file[f] = text.replace(old, new)
    diff = ""
    for f, text in by_file.items():
        a = open(os.path.join(REPO, f)).read().splitlines(True)
        diff += "".join(difflib.unified_diff(a, text.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    sh = open(os.path.join(SEEDS, "demo.sh")).read()
    ex = ""
    if stub or cli:
        shutil.copytree(os.path.join(ROOT, "stub"), os.path.join(d, "stub"), dirs_exist_ok=True)
    if stub:
        ex = '-I"$D/stub" src/SemanticRolesPrediction.cpp src/ReadingOrderDetection.cpp src/PdfToTextPlusPlus.cpp'
    if cli:
        sh = sh.replace('cd "$T"', CLI_BUILD + 'cd "$T"')
    sh = sh.replace("EXTRA", (ex + " " + extra).strip())
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy(os.path.join(SEEDS, "d.h"), d)
    open(os.path.join(d, "demo.cpp"), "w").write('#include "d.h"\n' + demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=2)

for name in sorted(os.listdir(SEEDS)):
    if name.endswith(".py"):
        exec(compile(open(os.path.join(SEEDS, name)).read(), name, "exec"))
