GEN = "sampled executions under generated and hostile workloads, judged by an independent oracle; no exhaustive claim"
DEFAULT_TECH = "runtime monitoring: reference-oracle monitor over generated executions"
DEFAULT_NOTE = GEN
NOTE.update({
 "C12": ("runtime monitoring: trace monitor over schedules of the drone-runtime executor (event log, ordering oracle)", "random schedules, delays and failures of the real runtime on generated pipelines; " + GEN),
 "C16": ("runtime monitoring: generated scripts are executed by sh in scratch directories and their observed trace is compared with the commands", "posix scripts are executed, windows scripts are judged by a tokenizer; " + GEN),
 "C17": ("runtime monitoring: Go race detector, goroutine stress with injected delays, input-aliasing and determinism monitors", "the race detector sees only the interleavings that occurred; " + GEN),
 "C18": ("runtime monitoring: panic, crash and hang monitors under fuzzed, mutated and enumerated inputs", "known findings: aliases, nesting (yaml dependency); " + GEN),
 "C28": ("runtime monitoring: the built binary is run as a process; exit status, output and file contents are monitored against the library", GEN),
 "C29": ("runtime monitoring: differential monitor over routes (format, encode, sign) comparing lint verdicts and compiled pipelines", GEN),
 "C30": ("runtime monitoring: end-to-end monitor (convert, lint, compile, execute by a model runtime with a trace checker)", GEN),
 "C31": ("runtime monitoring: differential monitor over processes in different surroundings, watching streams, files, descriptors, goroutines and variables", GEN),
 "C32": ("runtime monitoring: differential monitor over processes of the two builds", GEN),
})
