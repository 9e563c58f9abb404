#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl") if l.strip()]
PBT = "property-based testing (proptest): "
COMMON = " Exploration: it covers the generated cases only. Trusts concrete-core's arithmetic containers, proptest and the harness's own reference arithmetic."
T = {
 "C01": ("model-based histories of encrypted reads and writes against a plain array", "Histories over random parameters, shapes and thread pools; after each access the whole database is decrypted and compared with the model array, every error with the predicted noise."),
 "C02": ("model-based histories of query groups against a snapshot array model", "Groups with repeated indices, one write per index at most; database decrypted after each group."),
 "C03": ("model-based histories of batches against an array model with a hash-table placement model", "Random hashes through a hook, power-of-two widths from 2, up to five hash functions, pure read, pure write and row-wise mixed batches."),
 "C04": ("generated batch histories with an all-copies-agree invariant over the decrypted database", "Every cell of every item is decrypted after each batch and compared with the model, with noise prediction."),
 "C05": ("generated histories with an analytic noise model as oracle", "The error of every response and cell is compared with a spectral prediction for the actual key; long histories and default parameters included."),
 "C06": ("metamorphic comparison of query shapes, mask uniqueness and noise statistics over generated queries", "Computational hiding of the ciphertexts themselves (the security of TFHE) is assumed, not tested; what is tested is that shapes and freshness do not depend on secrets."),
 "C07": ("differential test of generated histories with fresh or interleaved clients against the array model", "Clients are rebuilt from key and parameters only."),
 "C08": ("differential test of generated histories over thread-pool sizes, with and without contention", "Schedules are those rayon produces for the generated pool sizes under contention; they are not enumerated."),
 "C09": ("generated shapes and hashes, decrypted tables compared with the returned plaintexts", "Both the crate's own hash and permutations injected through a hook."),
 "C10": ("round-trip over generated and exhaustive values, moduli and perturbations", "All values for small moduli, boundary perturbations for all."),
 "C11": ("round-trip and reference decryption over exact integer ring arithmetic", "Reference arithmetic is schoolbook multiplication modulo 2^64."),
 "C12": ("statistical oracles over generated encryptions", "Thresholds have a false-alarm probability below 1e-9 per run by construction."),
 "C13": ("differential test of generated call sequences on pairs and groups of contexts", ""),
 "C14": ("metamorphic relation between ciphertext and exact ring operations", ""),
 "C15": ("round-trip through generated gadgets with an analytic noise oracle", "Buffers are reused between operations of different shapes."),
 "C16": ("row-by-row decryption of generated RGSW ciphertexts against the gadget's definition", ""),
 "C17": ("differential test of the three key-switching forms with an analytic noise oracle", ""),
 "C18": ("generated plaintexts, keys and odd exponents against exact substitution", "All odd exponents at N=64 and 128, random ones up to N=2048."),
 "C19": ("generated bits, gadgets and keys through each expansion route, rows and products decrypted", ""),
 "C20": ("generated ciphertexts, all positions, exact LWE extraction and conversion with noise oracle", ""),
 "C21": ("generated indices and inputs, all outputs decrypted, analytic noise oracle", ""),
 "C22": ("generated and, for small degrees, exhaustive pairs against integer comparison", ""),
 "C23": ("generated trees against an independent recursive model", ""),
 "C24": ("differential test of encrypted against plaintext evaluation of generated trees and labels", "The simulation entry point runs with default parameters only (that is what it accepts)."),
 "C25": ("generated hashes and requests against bijection and first-fit models", ""),
 "C26": ("generated errors of every size against an exact distance computed from the phase", ""),
 "C27": ("round-trip and reference expansion of generated parameter lists", "Standard deviations with at most 15 significant digits."),
 "C28": ("generated command lines and parameter files run on the built program, output predicted exactly", "Real runs at ring degree 64 to 256 plus a few at the default parameters; timings only for range and consistency."),
 "C29": ("generated inputs against independent reimplementations", ""),
}
checks = []
for p in props:
    t, note = T[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
        "technique": PBT + t,
        "level": "exploration",
        "level_note": (note + COMMON).strip(),
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "panacea_verif",
        "enable": "RUSTFLAGS='--cfg panacea_verif' (see lib.sh; the program checked by C28 is built without it)",
        "source_commits": ["8580e83eb054af402e66a3151f72da6d05a77c73"],
    },
    "checks": checks,
    "not_applicable": [],
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
