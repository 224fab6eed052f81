"""Shared by the checks."""


class Lost(Exception):
    """A simulated process gave no answer (wall clock): retried, and never counted as a pass."""


class Harness(Exception):
    pass


def need(r):
    """The value of a forked call that must not fail in itself."""
    if r[0] == 'ok':
        return r[1]
    if r[0] in ('timeout', 'nozygote'):
        raise Lost(str(r))
    raise Harness(str(r)[:3000])
