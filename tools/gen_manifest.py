"""Writes /verif/MANIFEST.json."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
T = {
    "C01": "online oracle on returned covers over enumerated and random graphs",
    "C02": "returned covers judged by an independent exact minimum cover search",
    "C03": "online oracle on yielded cliques against brute force and networkx",
    "C04": "online oracle on returned structures, exact independence number",
    "C05": "round-trip monitor over enumerated and random one-pure-child structures",
    "C06": "online oracle on generated structures, pooled frequency monitors",
    "C07": "online oracle on generated structures, pooled frequency monitors",
    "C08": "online oracle on generated models, pooled distribution monitors",
    "C09": "history comparison under interleaved disturbances and between processes",
    "C10": "moment and distribution monitors over samples, exact oracle for singular models",
    "C11": "fits judged by an independent multi-start least squares optimizer",
    "C12": "reference-model monitor of the learned graph, metamorphic relations",
    "C13": "random histories of fits compared with isolated reference fits",
    "C14": "round-trip monitor generate-sample-refit with sampling error bounds",
    "C15": "reference-model monitor of p-values and decisions, pool instrumented",
    "C16": "delays and faults injected into worker processes, child processes monitored",
    "C17": "reference-model monitor (direct V-statistic), metamorphic relations",
    "C18": "reference-model monitor in exact arithmetic, metamorphic relations",
    "C19": "frequency monitors of decisions and p-values",
    "C20": "reference-model monitor, metric relations between observed distances",
    "C21": "reference-model monitor over all permutations, metamorphic relations",
    "C22": "trace monitor of forward passes and optimizer steps (torch hooks)",
    "C23": "file audit hook, tree comparison, interruptions injected into training",
    "C24": "history comparison of trainings under disturbances and between processes",
    "C25": "influence monitor: every decoder weight perturbed before, during, after training",
    "C26": "trace monitor recomputing losses, gradients and noise of every batch",
    "C27": "estimates judged by own objective, perturbation and moment monitors",
    "C28": "monitors on artists of the figures drawn",
    "C29": "invariants checked after each operation of random edit histories",
    "C30": "invariants checked after each rule application, exact cover oracle",
    "C31": "floating-point fault traps, warning traps, torch anomaly detection",
    "C32": "content hashes of all arrays before and after each operation of random programs",
    "C33": "exceptions and state monitored around impossible requests and injected faults",
    "C34": "round-trip monitor from nonlinear data to structures, pooled error rates",
    "C35": "concurrent threads with injected switches compared with serial execution",
    "C36": "copies and originals continued side by side, in and across processes",
    "C37": "results compared with pristine processes over histories of resembling calls",
    "C38": "leak monitors: handles, traced memory, live activations over long histories",
    "C39": "results compared between storages of the same numbers, content hashes",
    "C41": "output and logs captured and compared with results, exact minimum covers and the log",
    "C45": "outputs and hooked latents compared between batches, derivatives with differences, noise pooled",
    "C42": "metamorphic monitor: results compared with those for reordered arguments",
    "C43": "metamorphic monitor: results compared with those in converted units",
    "C44": "metamorphic monitor: composites compared with steps, wholes with parts",
    "C40": "snapshots of about fifty process-wide settings around every operation",
}
note = (
    "Held on the executions counted in the evidence file only; the oracle is independent of the code "
    "under test. Trusts numpy, scipy, networkx and torch as installed. {}"
)
extra = {
    "C02": "Independent exact search up to the sizes given in DESIGN.md; beyond, lower bounds only.",
    "C06": "Uniformity judged at 7 standard deviations.", "C07": "Uniformity judged at 7 standard deviations.",
    "C08": "Distributions judged beyond any doubt (7 standard deviations).",
    "C10": "Distributions judged beyond any doubt (7 standard deviations).",
    "C11": "Local minima are tolerated up to a small rate.",
    "C14": "Statistical bounds beyond any doubt; local minima tolerated up to a small rate.",
    "C16": "Schedules are those made by injected delays and worker numbers, not all.",
    "C19": "Rates judged with slack for asymptotics.",
    "C23": "Interruptions at forward passes and optimizer steps; faults of the file system while saving aren't injected.",
    "C27": "Early stops of BFGS where penalties aren't differentiable are tolerated up to a rate.",
    "C31": "Faults inside compiled code that neither raise, warn nor yield non-finite results aren't seen.",
}
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
checks = [
    dict(
        property=p["id"],
        quick_cmd=f"./run.sh {p['id']}",
        thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",
        technique="runtime monitoring: " + T[p["id"]],
        level="exploration",
        level_note=note.format(extra.get(p["id"], "")).strip(),
    )
    for p in props
]
manifest = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, torch, networkx' && chmod +x run.sh",
    checks=checks,
    not_applicable=[],
    notes="No hooks in /repo: monitors use hooks of torch and the interpreter and public results. "
    "Each check imports medil from /repo's working tree (pure Python, nothing to build).",
)
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
import jsonschema

s = json.load(open("/root/.vp/MANIFEST.schema.json"))
s.pop("$schema", None)
jsonschema.validate(manifest, s)
print(len(checks))
