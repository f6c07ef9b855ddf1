from . import codegen, libio, libmem, libprog, multisrc, libsys, libwasm, toolchain


def get(pid):
    for m in (toolchain, libio, libmem, libsys, libwasm, codegen, libprog, multisrc):
        c = getattr(m, pid, None)
        if c is not None:
            return c()
    raise SystemExit("unknown property " + pid)
