#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, and per property what props.py and properties.jsonl say."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from props import PROPS

HEAD = """# Deciding ZenKit's properties by runtime monitoring and sanitizers

(`tools/mkdesign.py` writes this file from the prose in it, `props.py`, `properties.jsonl` and `seeded/*/meta.json`.)

ZenKit reads and writes the file formats of two games, keeps a virtual file system and runs compiled scripts. What its
users rely on is that it reads what the formats say, writes what it and the games can read again, runs scripts as the
instruction set says, survives any input, and can be used from several threads on separate objects. These are the 32
properties of `properties.jsonl`. All of them are claimed; none is under `not_applicable`.

## How a property is decided

* **Execution of the real code.** `run.py PROP TIER` builds the library from `/repo`'s working tree together with the
  monitor program of the property (`harness/h_*.cc`) and runs it on all cores. Builds are cached below `.build` under a
  hash of sources and flags. The monitor programs use the public API only, with one exception: C19 to C21 observe every
  executed instruction through a hook in `src/DaedalusVm.cc` guarded by `ZK_VP_HOOKS`.
* **Workload.** A case is generated from (property, `VERIF_SEED`, case number) alone. The number of cases is fixed, time
  never decides what is run, so a run can be repeated exactly. Distributions are skewed to boundaries, collisions and
  hostile content, and some cases are rare and vast (lists of more than 32 Ki and 64 Ki entries, textures above 64 Ki
  pixels, calls repeated hundreds of times, deep nesting) because counters and indices go wrong there.
* **Oracles.** Nearly every behavioural property is decided by an oracle written for it without using ZenKit's code: a
  byte-string model of streams, a tree model of the file system, encoders and decoders of every format
  (`refar.hh` archives, `fields.hh` object fields, `texref.hh` textures, `georef.hh` geometry, `datref.hh` compiled
  scripts), and a plain interpreter of the script instruction set (`vmref.hh`). The remaining ones are differential: the
  same input under other circumstances must give the same result (C25, C26, C27, C30, C32).
* **Sanitizers.** ASan and UBSan without recovery (`asan`), TSan (`tsan`, C26), and plain builds with counting
  allocators and filled memory (`plain`, C23, C25). libstdc++ assertions are on. Values living alone in an allocation of
  their exact size turn reading one element too far into a report.
* **Deaths are attributed.** Before each case its number is put into shared memory. If the process dies (sanitizer,
  uncaught exception, signal, exceeded budget), the driver attributes that to the case, keeps the report as the replay
  file and goes on with the next case. `python3 run.py --replay FILE` repeats one.
* **Hangs** are budgets of counted work, not timeouts: stream operations are counted by a wrapping stream (C23), and
  processor time of a case is watched with a limit hundreds of times above the normal. Once a violation was seen, shards
  which still run after 240 s are ended, so that a check whose cases became slow answers in time.
* **Evidence** lists what monitors observed: counters of compared values per kind, distinct states, and the number of
  cases. Each property has a list of observations (`require`) without which the check reports an error of its own
  instead of success, so an empty workload cannot pass.
* **Containment.** Everything written goes to a fresh directory below `/tmp` which is removed at the end; save-game
  monitors audit this directory, and the code under test runs no commands.

Levels: everything is *monitored* (sampled executions). Nothing is proved; what was not generated was not observed. The
cost given below is the wall time of the quick tier on 8 idle cores including the build (which takes 30 to 60 s of it
where nothing is cached). The thorough tier runs 5 to 60 times as many cases.
"""

FALSE = """
## False alarms met and what became of them

Each of these was first reported by a check, found to be the check's (or the property's wording's) fault, and corrected:

* Memory: `nothrow new` mismatched with a replaced `operator new`; an inline `thread_local` of the harness crashed under
  TSan (a harness bug); the TSan build does not replace `operator new`; the monitor's own bookkeeping ordered the
  threads it was to observe (now relaxed atomics only). Out-of-memory is not injected: `Read` and `Write` are
  `noexcept` by interface, so running out of memory ends the program by design.
* C07, C29: objects which own each other in a circle (an NPC and its items, script instances) are never released by
  `shared_ptr`; exempt in the statement. Weak references end with the archive which made them, if nothing else owns the
  object.
* C09, C10: an event manager's active bit exists in save-games only; NPC item flags are cyclic in what they allow;
  fields of the other game keep their defaults.
* C12: floats of text-encoded archives are rounded by the format; not used in the byte-for-byte part.
* C13: the sections of a multi-resolution mesh may lie in any order and with gaps; compared in canonical layout.
* C14: sample positions are quantised; compared with the tolerance quantisation allows.
* C15: `attached` exists only in source text, `speed` only in compiled scripts; comparison is per form.
* C17: the order of blocks in a cutscene library is not kept; lookups are compared, not the order.
* C18: which accesses to constants are refused follows the documented wording, not the type system.
* C19: temporary strings are re-used in a ring; the bound on how long a value lives counts string locals saved by calls.
  `MOVSS` is not implemented. The limit of the machine's stack is only required to be a script error.
* C20: a `DaedalusFunction` returned by a native function is not a supported type.
* C21: what nobody specifies (a function consuming its caller's values) is only checked for memory safety.
* C23: budgets have generous constants, because repeated chunks may legitimately be read again.
* C25: formats extending to the end of the stream are not followed by other bytes; what follows the others begins with a
  `#`, since the text formats peek for a continuation.
* C27: of a text above 4000 characters only the beginning must arrive.
* C30: single archive objects have no load of their own and are left out.
* C32: binary-safe archives leave the cursor before their hash table, disk images start at the beginning of the stream:
  both store absolute positions, so neither is required behind other bytes. Model attachments are saved in the order of a
  hash table: only the same object is compared. The clock is fixed by interposing `time` and `clock_gettime`.
* C21: noise as byte code can call the symbol the machine itself adds to those of a script; the monitor did not know its
  number (found with another workload, not by the tree).

## Genuine defects

`KNOWN_FINDINGS.txt` lists every one with its commit; all were repaired in separate `fix:` commits, none is left open.
They range from wild reads and endless loops on damaged files to values lost between saving and loading (packed object
bits, light presets, mover states, NPC item lists), wrong results of the script machine after errors, data races in
the logger and `strtok`, times depending on the time zone, and content of an earlier load surviving the next.

## Limits

* Zipped disk images are not compiled here (miniz is absent); Windows variants neither.
* C28 decides against a table of member and field names derived from this tree and checked by name.
* Schedules in C26 are those the operating system gives to 3 to 7 threads; ThreadSanitizer decides by happens-before and
  so does not need the unlucky one, but it needs both accesses to be executed.
* UBSan's unsigned wrap-around is not used (it is defined and used on purpose in hashes).
"""

def main():
    cost = json.load(open(os.path.join(R, "tools", "cost.json")))
    out = [HEAD, "\n## The properties\n"]
    ps = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
    for p in ps:
        q = PROPS[p["id"]]
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append(p["statement"] + "\n")
        out.append("* Monitor: %s (`harness/%s.cc`, build %s)." % (q["technique"], q["harness"], ", ".join(q["variants"])))
        out.append("* Workload: %s." % q["rule"].rstrip("."))
        out.append("* Bounds: %s. Quick %d cases (about %s s), thorough %d." % (q["note"], q["quick"], cost.get(p["id"], "?"), q["thorough"]))
        out.append("* Must have been observed: %s." % ", ".join(q["require"][:12]) + (" ..." if len(q["require"]) > 12 else ""))
        out.append("* Why not tests: %s\n" % WHY[p["id"]])
    out.append(FALSE)
    out.append("\n## Planted bugs\n\nEach was written from the property and the code, passes the 97 tests, and has a demonstration. "
               "Beside these, some 180 further changes were tried against the checks as they grew (one-line changes of conditions, "
               "constants, order and lifetime in all source files); those missed and not equivalent led to stronger monitors: vast lists, opaque "
               "instances, slot histories, dissection of written archives, members before their class, indirect recursion.\n")
    out.append("| change | breaks | needs | caught by |\n|---|---|---|---|")
    sd = os.path.join(R, "seeded")
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"]))
    out.append("\nEvery one of them is caught by the check named, which is the property it was written against.\n")
    open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out))

WHY = {}
if __name__ == "__main__":
    for l in open(os.path.join(R, "properties.jsonl")):
        x = json.loads(l)
        WHY[x["id"]] = next((x[k] for k in x if k.startswith("why")), "")
    main()
