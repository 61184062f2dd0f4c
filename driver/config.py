"""What decides each property: simulation binary, scenarios with their share of the time, seconds of search per tier."""
QUICK, THOROUGH = 50, 1500

CHECKS = {
    "C01": dict(group="unix", scen={"unix_traffic": 5, "unix_kill": 2, "unix_many": 1}),
    "C02": dict(group="unix", scen={"unix_traffic": 5, "unix_kill": 2, "unix_many": 1}),
    "C03": dict(group="unix", scen={"unix_traffic": 1, "unix_kill": 1}),
    "C04": dict(group="unix", scen={"unix_traffic": 5, "unix_kill": 2, "unix_many": 1}),
    "C05": dict(group="unix", scen={"unix_kill": 1}),
    "C06": dict(group="unix", scen={"unix_lifecycle": 4, "unix_kill": 2, "stalled_server": 1}),
    "C07": dict(group="unix", scen={"unix_hostile": 5, "endpoint_fuzz": 1, "stalled_server": 1}),
    "C08": dict(group="unix", scen={"loopback": 4, "loop_manager": 1}),
    "C09": dict(group="unix", scen={"manager": 4, "loop_manager": 1, "loopback": 1}),
    "C23": dict(group="unix", quick=90, scen={"registries": 2, "singletons": 1, "loopback": 1, "manager": 1, "unix_callbacks": 1,
                                        "tracing:sessions": 1, "tracing:names": 1, "tracing:native_trace": 1, "catapult:web_clients": 1, "catapult:recorder": 1}),
    "C10": dict(group="unix", scen={"unix_callbacks": 2, "loopback": 1}),
    "C11": dict(group="tracing", scen={"names": 6, "end_to_end": 1, "singletons": 1}),
    "C12": dict(group="tracing", scen={"ring": 1}),
    "C13": dict(group="tracing", scen={"native_trace": 6, "end_to_end": 2, "singletons": 1}),
    "C14": dict(group="tracing", scen={"native_trace": 6, "lttng_trace": 3, "singletons": 1}),
    "C15": dict(group="tracing", scen={"native_trace": 3, "lttng_trace": 2, "fresh_names": 2}),
    "C16": dict(group="tracing", scen={"native_trace": 2, "lttng_trace": 1, "end_to_end": 1}),
    "C17": dict(group="tracing", scen={"sessions": 2, "native_trace": 1, "lttng_trace": 1, "end_to_end": 1}),
    "C18": dict(group="catapult", scen={"trace_session": 3, "web_clients": 1}),
    "C19": dict(group="catapult", scen={"web_clients": 1}),
    "C20": dict(group="catapult", scen={"recorder": 1}),
    "C21": dict(group="tracing", scen={"viewer_lines": 4, "parser_direct": 1, "lttng_trace": 2}),
    "C22": dict(group="tracing", scen={"lttng_trace": 1}),
}
STUBS = {
    "unix": ["kernel: sockets, pipes, select/poll, /proc/net/unix, clocks, scheduler (sim/)", "cbor (stubs/cbor, the submodule is empty)"],
    "tracing": ["kernel (sim/)", "cbor (stubs/cbor)", "lttng-ust tracepoint headers (stubs/lttng)", "the babeltrace/lttng viewer process (scen/lttng.cpp)", "seasocks web server (stubs/seasocks)"],
    "catapult": ["kernel (sim/)", "seasocks web server (stubs/seasocks)", "cbor (stubs/cbor)"],
}
REAL = {
    "unix": ["scalopus_interface", "scalopus_transport", "scalopus_general", "scalopus_tracing (common, native)", "libstdc++"],
    "tracing": ["scalopus_interface", "scalopus_transport", "scalopus_general", "scalopus_tracing (common, native, lttng)", "scalopus_catapult",
                "four more copies of the producer side, each its own process", "libstdc++"],
    "catapult": ["scalopus_catapult", "scalopus_interface", "scalopus_transport", "scalopus_general", "scalopus_tracing", "libstdc++"],
}
NOT_APPLICABLE = {
    "C24": "A pure compile-time function: no thread, clock, I/O, peer or fault can influence it, so simulation has nothing to decide.",
    "C25": "The Python bindings cannot be built here (the pybind11 submodule is empty and no pybind11 is installed), so there is no code to run under the simulator.",
}


def split(scen, group):
    """a scenario of another group is written group:scenario"""
    g, _, n = scen.rpartition(":")
    return (g or group), n


def groups(cfg):
    return sorted({split(k, cfg["group"])[0] for k in cfg["scen"]})


def union(what, cfg):
    out = []
    for g in groups(cfg):
        out += [x for x in what[g] if x not in out]
    return out
