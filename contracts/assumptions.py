"""What the proofs rest on without checking it."""
import z3


def z3version():
    return z3.get_version_string()


def trusted(models, units):
    t = ["the SSA front end (golang.org/x/tools/go/ssa) and the Go 1.23 compiler agree on the meaning of the source",
         "the symbolic executor and verification-condition generator in /verif/engine",
         "z3 " + z3version(),
         "the package initialisation of the code, which is executed concretely by the verifier, is what the Go runtime executes"]
    t += ["contract assumed for %s" % m for m in sorted(models)]
    return t


def assumptions(models, units):
    return ["SHA-256, SHA-512, HMAC, RIPEMD-160, Keccak-256 and PBKDF2 are arbitrary functions of their inputs (nothing about them is assumed but determinism and output length)",
            "memory is never exhausted and goroutines of other packages do not modify this library's memory",
            "machine integers are modelled exactly (bit vectors of their width), math/big integers as unbounded"]
