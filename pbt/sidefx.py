"""imported only if deserialization imports it (see c17)"""
LOG = []


def poke(*args):
    LOG.append(args)
    return len(LOG)
