NOTE="Exploration by seeded, generated executions; trusts the independent oracle in /verif/harness and the Go toolchain. Inputs not generated are not decided."
REF="runtime oracle: outcomes, effects and suspensions of generated sessions compared with an independent reference interpreter"
CHECKS={
"C01":("runtime oracle: token stream monitor against an independent lexer",NOTE),
"C02":("runtime oracle: parse-tree monitor against an independent recursive-descent parser",NOTE),
"C03":("runtime oracle: incremental and one-shot executions compared",NOTE),
"C05":("runtime oracle: executions under all capture options and their error stacks compared with an independent reference interpreter",NOTE),
"C26":("runtime oracle: interleaved histories of several interpreters compared with an independent reference interpreter; monitor of recycled objects (instrumented sync.Pool)",NOTE),
"C09":("runtime oracle: crash, hang and later-state monitors over hostile inputs, outcomes compared with an independent reference interpreter",NOTE),
"C25":("Go race detector over concurrent interpreters sharing programs and values, each compared with an independent reference interpreter",NOTE),
"C27":("runtime monitor of host stack depth, goroutines, live memory and allocations over growing scripts",NOTE),
"C06":("runtime oracle: displayed values read back by the implementation and by an independent reference interpreter",NOTE),
"C30":("runtime oracle: output, log lines and status of the built command line compared with an interpreter driven by the harness, lines fed at once or one by one",NOTE),
"C31":("runtime oracle: calls and help of every command compared with its displayed usage, its list of subcommands and an independent reference interpreter",NOTE),
"C29":("runtime oracle: native commands compared with the host library called directly, log records and files observed",NOTE),
"C08":(REF+", with a monitor of every value seen by the host",NOTE),
}
for i in "04 07 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 28 32".split():
    CHECKS.setdefault("C"+i,(REF,NOTE))
NA={}
