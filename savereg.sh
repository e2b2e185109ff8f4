#!/bin/sh
# savereg.sh ID REPLAYFILE NAME: keep a minimal reproduction
mkdir -p regress/$1 && python3 - "$2" "regress/$1/$3.json" <<'P'
import json,sys
j=json.load(open(sys.argv[1])); json.dump({"section":j["section"],"case":j["case"]},open(sys.argv[2],"w"),sort_keys=True); open(sys.argv[2],"a").write("\n")
P
