"""Which packages each property's harness instruments, and how it is built."""
import build

RT = build.BP + "runtime/"
CORE = [RT + "core/backend"]


def simple(pkgs, seams=()):
    return lambda pid: build.harness(pid.lower(), pkgs, "./props/" + pid.lower(), seams)


def gen(spec, pkgs=(), seams=(), stubs=()):
    return lambda pid: build.gen_harness(pid.lower(), spec, "./props/" + pid.lower(), [RT + "plugins/golang"] + list(pkgs) + CORE, seams, stubs)


PROPS = {
    "C01": simple([RT + "plugins/simplecache"] + CORE),
    "C02": simple([RT + "plugins/simplequeue"] + CORE),
    "C05": simple([RT + "plugins/clientpool"]),
    "C07": simple([RT + "core/registry"]),
    "C06": simple([RT + "plugins/golang"] + CORE),
    "C03": simple([RT + "plugins/simplenosqldb", RT + "plugins/simplenosqldb/query"] + CORE),
    "C08": gen("retries"),
    "C09": gen("timeouts"),
    "C11": gen("compose", [RT + "plugins/clientpool"], seams=["http"], stubs=["mux"]),
    "C10": gen("http", seams=["http"], stubs=["mux"]),
}


def collide():
    try:
        build.compiles("collide", "collide")
    except build.GeneratedError as e:
        yield e


# what a check looks at besides its runs: errors of the compiler or of the code it generates
AFTER = {"C11": collide}
