"""Modules of the crate under contract (leaf value: the overlay name)."""
TREE = {
    "shared": {
        "buffer": {"buffer": "buffer"},
        "dns": {"class": "class", "errors": "errors", "header": "header", "message": "message", "name": "name",
                "questions": "questions", "records": "records", "types": "types", "utils": "utils"},
        "thread_pool": "pool",
        "net": {"traits": "nettraits", "tcp_server": "tcp", "udp_server": "udp", "setup": "setup"},
    },
    "nameserver": {
        "conf": "nsconf",
        "handler": "nshandler",
        "zones": {"tokens": "tokens", "errors": "zerrors", "utils": "zutils", "parser": "zparser", "parser_auth": "zauth", "parser_sub": "zsub"},
    },
    "resolver": {
        "conf": "rsconf",
        "handler": "rshandler",
        "back_end": {"cache": "cache", "errors": "rserrors", "trace": "rstrace", "utils": "rsutils", "requests": "rsrequests", "recursive": "rsrecursive"},
    },
    "bin": {"nameserver": "binns", "resolver": "binrs"},
}
