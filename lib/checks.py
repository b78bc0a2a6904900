"""Which module checks which property."""
import importlib, signal
import common, probes

MODULES = ("check_ledger", "check_pod", "check_loader", "check_tabulate", "check_launcher", "check_query", "check_plugins", "check_format", "check_app", "check_auto")


def default_signals():
    """Signals as a terminal's shell would leave them, for what the checks start."""
    for s in (signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGHUP, signal.SIGCHLD, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM):
        if signal.getsignal(s) == signal.SIG_IGN:
            signal.signal(s, signal.default_int_handler if s == signal.SIGINT else signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])


def run(prop, tier):
    default_signals()
    for name in MODULES:
        module = importlib.import_module(name)
        if prop in module.CONF:
            common.build()
            probes.run(prop)
            return module.run(prop, tier)
    raise common.ToolError("no such property: " + prop)
