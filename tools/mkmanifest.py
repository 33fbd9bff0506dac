#!/usr/bin/env python3
import json, subprocess
claimed = json.load(open('/verif/tools/claims.json'))
commits = [l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if ' hook: ' in l]
m = {"version": 1,
 "setup_cmd": "cd /verif/sim && cargo build --offline",
 "hooks": {"guard": "--cfg mysql_connector_sim", "enable": "RUSTFLAGS='--cfg mysql_connector_sim' (set by /verif/sim/.cargo/config.toml)", "source_commits": commits},
 "checks": [], "not_applicable": claimed["not_applicable"]}
for c in claimed["checks"]:
    m["checks"].append({"property": c["id"], "quick_cmd": f"/verif/run.sh check {c['id']}", "thorough_cmd": f"/verif/run.sh check {c['id']} --thorough",
      "evidence_file": f"/verif/evidence/{c['id']}.json", "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
