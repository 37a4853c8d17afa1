"""Writes harness/meta.json and MANIFEST.json (per property: level, technique, rule, assumptions, required monitors)."""
import json

PY = "/opt/venv/bin/python"
SIM = "an independent model of the same operations"
M = {}


def m(pid, technique, rule, required, assumptions=(), level="exploration", note=""):
    M[pid] = {"level": level, "technique": "runtime monitoring: " + technique, "rule": rule, "required": required,
              "assumptions": list(assumptions), "note": note}


COMMON = "user step functions are deterministic functions of their arguments unless a case says otherwise"
m("C01", "online oracle over logged step calls and reads, against a from-scratch evaluator, on random build histories",
  "A case is a random acyclic graph (1-6 steps, class and decorator producers, several outputs, kept/unused/aliased outputs, three storages) driven through a random history of edits, reverts, redefinitions, fresh backends, lost files and re-opened graphs; after each build every artifact is read back through the snapshot and compared. Distinct: transitions (operation, previous operation, number of steps), run decisions (expectation, output, arity, storages) and values read (storage, format, type, position).",
  {"artifact_reads": 300, "step_runs_observed": 100, "op_revert": 3, "op_fresh": 3, "op_swap-outputs": 2}, [COMMON])
m("C02", "invocation-count monitor (must / must-not / may run) over random build histories",
  "Same generator as C01; every step call is logged and compared with a model of which (producer, version, input contents) outputs are already complete in the backend or in storage. Distinct: as C01.",
  {"run_oracle_must": 100, "run_oracle_mustnot": 100, "op_fresh": 3, "op_nothing": 3}, [COMMON, "may-run is only used where a second build with an empty backend finds only part of what an earlier backend knew"])
m("C03", "fault injection at every step phase, with monitors on exceptions, storage contents, old and new reads and later invocation counts",
  "Random graphs and histories as C01, with faults (raise, interrupt, invalid, wrong count/type, unserialisable, unreadable input, full disk) injected into random steps of random builds, singly and in sequence, followed by recovery with the same or an empty backend. Distinct: as C01, plus (fault, outputs, storages, graph size, completed steps).",
  {"faults_injected": 50, "recoveries_checked": 50, "unpublished_after_failure": 100, "fault_disk-full": 3, "fault_unserializable": 3, "fault_wrong-count": 3}, [COMMON, "a full disk is simulated by a file-size limit (RLIMIT_FSIZE); a killed process in the middle of an in-place overwrite is out of scope"], note="Faults are injected at each phase of each step; which (step, phase) combinations are reached is random.")
m("C04", "differential monitor: the same graph spec realised in other orders/processes/backends must give one id, each single-point mutation another",
  "A case is a random graph spec realised repeatedly (shuffled definition order, respelled roots, other backends, built, re-opened, in child processes with other hash seeds), plus all applicable single-point mutations of structure, tags, versions, artifacts and raw data. Distinct: (spec shape, kind of mutation).",
  {"redefinitions": 50, "cross_process": 10, "missing_raw": 20, "mutation:content": 10, "mutation:inputs-swapped": 1, "mutation:version": 10, "reverts": 10})
m("C05", "online oracle comparing fingerprint equality with an independent canonical form of generated definitions, in several processes",
  "A case is a random definition spec tree (types, formats, storages, artifacts, producers, versions, views, partitions, snapshots, graphs) rebuilt, mutated at random depth, copied, pickled and updated; all fingerprints of a shard are kept in one table and must be equal exactly for canonically equal specs. Distinct: canonical forms of originals and of mutants.",
  {"fingerprints": 2000, "mutants_same": 200, "mutants_different": 500, "cross_process": 40, "updated_copies": 100},
  ["two classes with the same name are one class for fingerprints", "order of mapping entries is significant", "64-bit collisions do not occur"])
m("C06", "online oracle: operators and conversions against plain integers and a reference Farmhash",
  "Random and boundary 64-bit values, pairs and triples through all operators and conversions; random strings (all lengths classes of the hash, unicode) against a pure-Python Farmhash64. Distinct: (operator, operand signs, result size class), (conversion, range class) and (string length class, alphabet).",
  {"operations": 2000, "overflows_rejected": 200, "strings": 100, "cross_process": 10})
m("C07", "read/write monitor with a model of every value written per partition (non-interference after each write)",
  "Random values of random types x formats x storages x views written (and overwritten) into partitioned and plain artifacts; after each write other partitions are re-read, and random selections are read together. Distinct: (type, format, storage, view, shape of selection).",
  {"reads": 500, "partition_selections": 100, "missing_reads": 10, "multi_rejected": 10}, ["the cloud store is the gcp_storage_emulator run in-process"])
m("C08", "offline oracle: rendered locations and discovered partitions against an independent renderer and model of stored files",
  "Random path templates (names, tags, key components, format specs, fixed components, literal glob characters), key types, stored sets, decoy files and request filters on local and emulated cloud storage and literals. Distinct: (storage, template, partition identity).",
  {"partitions_discovered": 200, "filtered_discoveries": 100, "decoys": 100, "unfit_keys": 20, "incomplete_templates": 20},
  ["files a user put where only a partition of another key type could be are not stored partitions of the artifact", "adjacent key components are separated by literal text"])
m("C09", "online monitor: one table bytes <-> content fingerprint per storage kind must stay a bijection over all observations",
  "Random byte contents (empty, around buffer sizes, one-byte differences, equal size and mtime) and random histories of out-of-band edits, copies, deletions and library writes. Distinct: (storage, operation, step, contents).",
  {"observations_local": 300, "observations_gcs": 100, "observations_literal": 50, "op_stealth": 10, "other_process": 1})
m("C10", "online checking of backend calls against a reference model of sets and dictionaries",
  "Random histories of partition, link, graph, snapshot and tag operations over several artifacts, storages, snapshots, connections and two backends, with a full sweep of all reads after random steps. Distinct: (last three operations, sizes of the recorded state).",
  {"link_reads": 300, "full_sweeps": 50, "first_uses": 20, "filtered_reads": 10})
m("C11", "online oracle over random definition programs against a model of names, locations and openness",
  "Random graph-definition programs: nested names, bulk maps, one artifact under several names and graphs, refused assignments, exceptions, nested and threaded definitions, re-opening. Distinct: (artifact kind, template, name depth, tags, graph, block).",
  {"refused_changes": 500, "locations": 100, "reopened": 50, "failed_blocks": 50, "threads": 10}, ["graphs given artifacts through the constructor outside a definition block are not located"])
m("C12", "online oracle: random operation sequences against a tree-of-leaves model and plain dictionaries",
  "Random operations on nested typed containers (valid and refused) and random frozen mappings built, merged, copied, pickled here and in other processes. Distinct: (operation, shape, outcome).",
  {"box_set": 200, "box_closed_writes_refused": 100, "frozen_cases": 200, "cross_process": 10})
m("C13", "differential monitor: conversions against independent reference conversions for six type systems",
  "Random types of bounded nesting converted out and back in, random foreign types converted in and out, in random order. Distinct: (system, direction, type shape, accepted or rejected).",
  {f"{s}:{d}": 50 for s in ("python", "numpy", "pandas", "pyarrow", "bigquery", "pydantic") for d in ("in", "out", "rejected")})
m("C14", "online oracle: generated producer definitions/wirings, well-formed or with one defect, against a legality predicate",
  "A case is a random well-formed producer definition (class and decorator) that is accepted, wired, run and compared, plus variants with exactly one defect and wirings with one unsuitable artifact. Distinct: (defect kind, definition shape, form).",
  {"accepted_class": 200, "accepted_decorator": 100, "ran_class": 200, "bad_wirings": 500, "bad_outputs": 500, "refused_validate": 5, "refused_type_conflict": 5})
m("C15", "state-comparison monitor (files, cloud objects, backend contents and write calls) around refused and accepted accesses",
  "Random artifacts (formats, storages, key types, types) accessed with one incompatible hint, view, value, key, fingerprint, handler or artifact, interleaved with valid accesses. Distinct: (kind of access, artifact shape, outcome).",
  {"accepted": 100, "key_superfluous": 10, "refused_writing_a_wrong_value": 20, "refused_reading_by_a_wrong_hint": 20, "refused_writing_a_foreign_artifact": 10})
m("C16", "online oracle: which handler ran, against a reference specificity order over random hierarchies and registrations",
  "Random class hierarchies, specifications, registration orders, interleaved calls and late discoveries; random priority registries. Distinct: (hierarchy shape, registrations, call types).",
  {"dispatches": 500, "unique_most_specific": 200, "no_handler": 100, "lazy_discoveries": 30, "registry_ops": 200})
m("C17", "three-valued invocation monitor per output partition plus reads, over histories of partition changes",
  "Random graphs of partitioned steps (many-to-one, one-to-many, filters, joins, broadcasts, several outputs) over histories of added, changed, removed and lost partitions. Distinct: (operation, mapping kinds, key types).",
  {"partition_must": 200, "partition_mustnot": 200, "partition_reads": 500, "op_remove": 10, "op_add": 10, "misnamed_inputs": 20})
m("C18", "adversarial thread scheduler on library lines; concurrent results compared with sequential ones; offline check of operation histories",
  "A case runs 2-4 thread jobs (pipelines, first use in a fresh process, one closed graph, one shared backend) with hand-overs forced at random library lines, and then the same jobs alone. Distinct: schedules (hash of the sequence of hand-overs), hand-over sites and jobs.",
  {"runs_pipelines": 10, "runs_closed": 10, "runs_history": 10, "runs_first_cold": 5, "handovers": 2000, "tag_contended": 3},
  ["hand-overs happen between Python lines (not inside C calls)", "every thread defines its own producers and graphs"])
m("C19", "online oracle: mutation attempts, equality/hash/fingerprint before and after use, copies and pickles across processes, rejections of bad values",
  "A case is a random definition spec tree built from mutable sources, attacked through its public interface, used by the library, copied, pickled into another process, compared with equal and unequal definitions, and re-made with one bad value. Distinct: (class, field, kind of attempt).",
  {"mutations_refused": 1000, "uses": 200, "copies": 200, "cross_process": 40, "rejections": 300, "unequal": 300})
m("C20", "online oracle: answers against an independent relation over a term language of hints",
  "Random hints (classes, containers, unions, annotated, bounded variables, None, Any) of bounded nesting, pairs, chains, respellings, and things that are not types. Distinct: (constructors of both sides, answer).",
  {"questions": 5000, "decided_true": 300, "decided_false": 300, "transitive_chains": 300, "extractions": 500, "non_types": 300})
m("C21", "re-reading monitor over all earlier snapshots and tags after every operation of random histories",
  "Random graphs and histories as C01/C03 (edits, failures, re-definitions) with tags written with and without overwrite; all earlier snapshots and tags are re-read. Distinct: (operation, age of snapshot).",
  {"old_snapshot_reads": 500, "tag_resolved": 100, "tag_refused": 20, "unpublished_after_failure": 20, "old_raw_reads_after_additions": 20}, [COMMON])
m("C22", "invocation and nonce monitor over random histories of version changes against the version policy",
  "Small graphs whose steps return a fresh nonce per run; histories of version changes of every kind, edits, reverts and fresh backends. Distinct: (expectation, artifact, version kind, style, storage, inputs).",
  {"expect_must": 200, "expect_mustnot": 200, "bump_insignificant": 20, "bump_significant": 50, "went_back": 30, "invalid_refused": 20})
m("C23", "online oracle: plain values assigned by every route, read back and fed to steps, compared type-exactly",
  "Random plain values and nestings, assignment routes and producers; values that cannot be inferred or stored. Distinct: (value shape, route, outcome).",
  {"reads": 500, "refused_values": 100, "producers_fed": 100, "multi_refused": 30, "cast_reads": 100, "cast_refused": 100})
m("C24", "online oracle: attributes of random artifact classes/instances against a reference merge",
  "Random class hierarchies with overridden defaults and instance arguments, followed by copies, pickles, production and graph assignment. Distinct: (which fields given at which level, route).",
  {"assigned": 200, "refused": 200, "route_out": 30, "route_pickle": 30, "partition_locations": 30})
m("C25", "connection life-cycle monitor on user-defined backends under the pipeline simulators' value and re-run oracles",
  "Random pipelines and histories as C01/C03/C17 on journalled file stores (autocommit, isolated transactions, rollback), reopened, failing at random calls, driven with given connections and other executors. Distinct: (phase, transaction habit, connections opened and nested, operation).",
  {"connections": 2000, "given_connections": 300, "given_current_reads": 100, "given_tags": 50, "reconnected": 50, "store_failures": 30, "failed_builds": 20, "partitioned_builds": 50, "other_executor": 20}, [COMMON])
m("C26", "outcome-comparison monitor over fresh processes with random import orders and installed plug-ins",
  "A case is a fork in which the library is imported for the first time: random modules in random order, interleaved with jobs (conversions in all type systems, view lookups, fingerprints, builds) and uses of generated plug-ins (views, formats, storages at random depths). Distinct: (job, what was imported before, plug-in shape).",
  {"jobs_compared": 150, "jobs_cold": 50, "plugins_used": 40, "plugins_cold": 10, "first_import": 20, "plugin_view": 15, "plugin_format": 5, "plugin_storage": 5},
  ["third-party libraries are loaded beforehand"])
m("C27", "location monitor against a reference template evaluator, under the partitioned simulator's value and re-run oracles",
  "Random storage classes (fields, templates, separators, versioned partitions) and formats under the histories of C17; every partition's fields are predicted. Distinct: (field count, separators, key types, format, raw or produced, tags, versions).",
  {"places": 2000, "own_key_fields": 200, "versioned_partitions": 300, "versioned_reads": 100, "misfits_refused": 20, "partition_must": 100, "partition_mustnot": 100}, [COMMON])

NOT_CLAIMED = {}


def main():
    import os
    import sys

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    json.dump({k: {x: v[x] for x in ("level", "rule", "assumptions", "required")} for k, v in M.items()}, open(here + "/harness/meta.json", "w"), indent=1)
    props = [json.loads(x)["id"] for x in open(here + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        if p in NOT_CLAIMED or not os.path.exists(f"{here}/harness/{p.lower()}.py"):
            na.append({"property": p, "reason": NOT_CLAIMED.get(p, "its monitor is still being built")})
            continue
        v = M[p]
        checks.append({"property": p, "quick_cmd": f"{PY} harness/run.py {p} quick", "thorough_cmd": f"{PY} harness/run.py {p} thorough",
                       "technique": v["technique"], "level": v["level"],
                       "level_note": "Held on every generated execution observed by the monitors, not for all inputs; the seed, counts of oracle evaluations and of distinct behaviours are in the evidence. " + v["note"]
                       + ("Assumes: " + "; ".join(v["assumptions"]) + "." if v["assumptions"] else "Trusts the harness' own reference model.")})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "notes": "Pure Python: nothing is compiled; every check imports /repo/src directly (PYTHONPATH) with /opt/venv's interpreter. No hooks in /repo."},
              open(here + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), [x["property"] for x in na])


main()
