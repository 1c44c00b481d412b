WHOLE = ("needs the whole interpreter running; the monoruby crate cannot be built offline (its git dependencies are absent), "
         "so there is no execution for a runtime monitor to observe")
NA = {p: WHOLE for p in ("C40", "C41", "C42", "C43", "C44", "C45", "C46", "C47")}
HOOKS = None
NOTES = "Every check is runtime monitoring: seeded workloads on the real code, judged by reference models, ledgers, callback traces and sanitizers."
