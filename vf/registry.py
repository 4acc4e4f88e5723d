from .core import Check, Conf
CHECKS = {}


def add(pid, title, *confs):
    CHECKS[pid] = Check(pid, title, list(confs))


from . import gens_containers, gens_strings, gens_time, gens_pipes, gens_values, gens_cbor, gens_m2m, gens_console, gens_storage, gens_bus, gens_image, gens_misc  # noqa: E402,F401
