#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists what has a check; everything else is not_applicable with a reason."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
PBT = "property-based testing (proptest, fixed seeds, 8 processes, shrinking)"
COMMON = "Sampled inputs, so no proof. Trusts the harness's oracle (its own percent coding, date arithmetic and header normalisation, and ring's RSA verification) and the domain stated in the property. Replays every saved minimal case first."
T = {
 "C01": (PBT + "; an independent V4 verifier as oracle", ""),
 "C02": (PBT + "; decode round trip and the WHATWG url parser as oracle", ""),
 "C03": (PBT + "; decode round trip against the caller's list, with an RFC 3986 and an HTML-form decoder", ""),
 "C04": (PBT + "; grammar and canonical-order invariants over every returned URL", ""),
 "C05": (PBT + "; metamorphic pairs of header lists compared by a model of header equivalence", ""),
 "C06": (PBT + "; integer-nanosecond reference model of acceptance, date and lifetime under a virtual clock", ""),
 "C07": (PBT + "; independent calendar arithmetic, with a virtual clock stepping over midnight between reads", ""),
 "C08": (PBT + "; metamorphic pairs: the signature agrees if and only if a normal form of the request agrees", ""),
 "C09": (PBT + "; last-set-wins reference model over sequences of setter calls", ""),
 "C10": (PBT + "; conditions rebuilt from the returned fields and compared with the decoded policy", ""),
 "C11": (PBT + "; RSA verification with the public key, digest comparison across policies", ""),
 "C12": (PBT + "; acceptance predicate as reference model", ""),
 "C13": (PBT + "; acceptance predicate as reference model", ""),
 "C14": (PBT + "; oversized and hostile arguments and service answers, panic oracle, key usable afterwards", ""),
 "C15": (PBT + "; JSON documents from an independent writer, differential against the key they spell, path loading in a scratch directory", ""),
 "C16": (PBT + "; stateful histories against a cache model, virtual clock, scripted metadata and signBlob servers on loopback", ""),
 "C17": (PBT + "; stateful histories with injected service faults and abandoned calls against a cache model", ""),
 "C18": (PBT + "; requests recorded by scripted servers compared with the returned URL or form", ""),
 "C19": (PBT + "; concurrent schedules with latencies, failures and cancellations against history invariants", ""),
 "C20": (PBT + "; differential reruns under changed environment, clock, time zone, thread and spelling of defaults", ""),
 "C21": (PBT + "; taint scan of every result and error chain for windows of the secrets in use", ""),
 "C24": (PBT + "; CPU time and counted memory of each call compared with a linear bound in the size of its arguments", ""),
 "C25": (PBT + "; an invariant over histories of calls: counted memory, open files, threads and tasks do not grow from batch to batch", ""),
 "C26": (PBT + "; liveness under generated silence: what needs no silent service must return or send its request in time", ""),
 "C27": (PBT + "; concurrent and successive runtimes that end in the middle of calls, results and fetch counts observed at scripted servers", ""),
 "C23": (PBT + "; the calls to the operating system, interposed in the harness process, compared with the set the case allows", ""),
 "C22": (PBT + "; acceptance predicate, round trip and normal form over generated policy documents through a hook", ""),
}
CLAIMED = os.environ.get("CLAIMED", "").split() or [p["id"] for p in props]
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "hooks": {
  "guard": "vp_hooks",
  "enable": "RUSTFLAGS=\"--cfg vp_hooks\" (set by ./check and harness/.cargo/config.toml; the harness crate depends on /repo by path)",
  "source_commits": ["52236ed7a0af2f8a5b9e7c1a5f4a6b1c"],
 },
 "checks": [
  {"property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./check run {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check run {p['id']}",
   "evidence_file": f"evidence/{p['id']}.json", "technique": T[p["id"]][0], "level": "exploration", "level_note": (T[p["id"]][1] + " " + COMMON).strip()}
  for p in props if p["id"] in CLAIMED],
 "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CLAIMED],
}
import subprocess
m["hooks"]["source_commits"] = [subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=behind cfg(vp_hooks)"], text=True).split()[-1]]
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
